package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mrasu/GravityR"

type Program struct {
	Fset         *token.FileSet
	Repo         string
	prog         *ssa.Program
	pkgs         []*packages.Package
	byName       map[string]*types.Package // last element -> package (loaded ones)
	byPath       map[string]*types.Package
	funcs        map[string]*ssa.Function
	regexGlobals map[*ssa.Global]string
	globalConst  map[*ssa.Global]bool
	globalInit   map[*ssa.Global]string
	mutMemo      map[ssa.Value]int
	Spec         *Spec
	modMemo      map[string]map[string]Sort
	mmu          sync.Mutex
	dbg          map[*ssa.Function]map[ssa.Value]string
	dbgMu        sync.Mutex
	deadline     time.Time
	mutMu        sync.Mutex
}

func LoadProgram(repo string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./database/...", "./lib/...", "./otel/...", "./infra/...", "./html/...", "./cmd/...", "github.com/samber/lo", "container/heap", "gopkg.in/guregu/null.v4")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	P := &Program{Fset: fset, Repo: repo, prog: prog, pkgs: pkgs, byName: map[string]*types.Package{}, byPath: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, regexGlobals: map[*ssa.Global]string{}, globalConst: map[*ssa.Global]bool{}, globalInit: map[*ssa.Global]string{}, mutMemo: map[ssa.Value]int{}, dbg: map[*ssa.Function]map[ssa.Value]string{}, modMemo: map[string]map[string]Sort{}}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		P.byPath[sp.Pkg.Path()] = sp.Pkg
		if _, dup := P.byName[sp.Pkg.Name()]; !dup || strings.HasPrefix(sp.Pkg.Path(), modPath) {
			P.byName[sp.Pkg.Name()] = sp.Pkg
		}
		for _, imp := range sp.Pkg.Imports() {
			P.byPath[imp.Path()] = imp
			if _, dup := P.byName[imp.Name()]; !dup {
				P.byName[imp.Name()] = imp
			}
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				P.addFunc(x)
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				if n.TypeParams().Len() > 0 {
					for i := 0; i < n.NumMethods(); i++ {
						if fn := prog.FuncValue(n.Method(i)); fn != nil {
							P.addFunc(fn)
						}
					}
					continue
				}
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
							P.addFunc(fn)
						}
					}
				}
			}
		}
		P.scanInit(sp)
	}
	return P, nil
}

// fname gives the short, pointer-insensitive name "pkgpath.Type.Method" or "pkgpath.Func".
func fname(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil && fn.Object() == nil {
		return fn.String()
	}
	var pk string
	if fn.Pkg != nil {
		pk = shortPath(fn.Pkg.Pkg.Path())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = shortPath(fn.Object().Pkg().Path())
	}
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		return pk + "." + recvName(r.Type()) + "." + fn.Name()
	}
	if fn.Parent() != nil {
		return fname(fn.Parent()) + "$" + fn.Name()
	}
	return pk + "." + fn.Name()
}

func recvName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func objName(f *types.Func) string {
	pk := ""
	if f.Pkg() != nil {
		pk = shortPath(f.Pkg().Path())
	}
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		return pk + "." + recvName(r.Type()) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func (P *Program) addFunc(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	P.funcs[fname(fn)] = fn
}

// scanInit records package variables assigned exactly once, in init, and the
// literals of regular expressions among them.
func (P *Program) scanInit(sp *ssa.Package) {
	stores := map[*ssa.Global]int{}
	var visit func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g]++
						if c, ok := st.Val.(*ssa.Call); ok {
							if cf := c.Call.StaticCallee(); cf != nil && cf.String() == "regexp.MustCompile" {
								if k, ok := c.Call.Args[0].(*ssa.Const); ok {
									P.regexGlobals[g] = constant.StringVal(k.Value)
								}
							}
						}
						if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
							P.globalInit[g] = k.Value.ExactString()
						}
						if fn.Name() != "init" {
							stores[g] += 10
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, m := range sp.Members {
		if fn, ok := m.(*ssa.Function); ok {
			visit(fn)
		}
		if t, ok := m.(*ssa.Type); ok {
			if n, ok := t.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if fn := P.prog.FuncValue(n.Method(i)); fn != nil {
						visit(fn)
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n == 1 {
			P.globalConst[g] = true
		} else {
			delete(P.regexGlobals, g)
		}
	}
}

func (P *Program) mayMutate(v ssa.Value) bool {
	P.mutMu.Lock()
	defer P.mutMu.Unlock()
	return P.mayMutate1(v)
}

func (P *Program) cellMutated(a ssa.Value) bool {
	P.mutMu.Lock()
	defer P.mutMu.Unlock()
	return P.cellMutated1(a)
}

// mayMutate: may elements of slice value v be stored to through v?
func (P *Program) mayMutate1(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	switch P.mutMemo[v] {
	case 1:
		return false
	case 2:
		return true
	case 3:
		return false
	}
	P.mutMemo[v] = 3
	r := P.mutCalc(v)
	if r {
		P.mutMemo[v] = 2
	} else {
		P.mutMemo[v] = 1
	}
	return r
}

func addrWritten(a ssa.Value) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == a {
				return true
			}
		case *ssa.FieldAddr:
			if addrWritten(x) {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(x) {
				return true
			}
		case *ssa.Call, *ssa.Defer:
			return true
		}
	}
	return false
}

var mutatingExt = map[string]int{"sort.Slice": 0, "sort.SliceStable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Sort": 0}

func (P *Program) mutCalc(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			if x.X == v && addrWritten(x) {
				return true
			}
		case *ssa.MakeInterface:
			if x.Referrers() != nil {
				for _, rr := range *x.Referrers() {
					if c, ok := rr.(*ssa.Call); ok {
						if cf := c.Call.StaticCallee(); cf != nil {
							if _, ok := mutatingExt[cf.String()]; ok {
								return true
							}
						}
					}
				}
			}
		case *ssa.ChangeType:
			if P.mayMutate1(x) {
				return true
			}
		case *ssa.Store:
			if x.Val == v {
				if al, ok := x.Addr.(*ssa.Alloc); ok && P.cellMutated1(al) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && x.Call.Args[0] == v {
					return true
				}
				continue
			}
			cf := x.Call.StaticCallee()
			if cf == nil {
				continue
			}
			if k, ok := mutatingExt[cf.String()]; ok && x.Call.Args[k] == v {
				return true
			}
			for ai, a := range x.Call.Args {
				if a == v && ai < len(cf.Params) && P.mayMutate1(cf.Params[ai]) {
					return true
				}
			}
		}
	}
	return false
}

// cellMutated: are elements of the slice kept in this variable updated in place?
func (P *Program) cellMutated1(a ssa.Value) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if P.mayMutate1(x) {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == a {
					fv := x.Fn.(*ssa.Function).FreeVars[i]
					if P.cellMutated1(fv) {
						return true
					}
				}
			}
		}
	}
	return false
}

// escapes: does the address of this (non-struct) cell need to be a value?
func (P *Program) escapes(a *ssa.Alloc) bool {
	return addrEscapes(a, 0)
}

func addrEscapes(a ssa.Value, d int) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case *ssa.Return, *ssa.Phi, *ssa.MapUpdate:
			return true
		}
	}
	return false
}

func (P *Program) lookupFunc(name string) *ssa.Function {
	if f, ok := P.funcs[name]; ok {
		return f
	}
	return nil
}

func (P *Program) funcNames() []string {
	var out []string
	for n := range P.funcs {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
