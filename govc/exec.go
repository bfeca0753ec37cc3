package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SliceVar is a slice value whose elements may be updated in place; its
// current content lives in a state cell and is written back to its origin.
type SliceVar struct {
	cell string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	id     int
	defers []deferred
	loops  map[*ssa.BasicBlock]*Loop
	order  []*ssa.BasicBlock
	rets   []retEdge
	parent *Frame
	site   ssa.Instruction
	origin map[string]*Addr   // SliceVar cell -> origin
	omap   map[string]*mapLoc // SliceVar cell -> map origin
}

type deferred struct {
	flag string
	call *ssa.CallCommon
	vals []Val // evaluated callee + args
}

type retEdge struct {
	cond *Term
	st   *State
	vals []Val
}

type edge struct {
	cond *Term
	st   *State
	phis []Val
}

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	ord  int
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := loops[h]
				if l == nil {
					l = &Loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
					loops[h] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	return loops
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// callBody symbolically executes fn's body (inlining).
func (vc *VC) callBody(fn *ssa.Function, args []Val, binds []Val, st *State, guard *Term, parent *Frame) ([]Val, *State, *Term) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for %s", fn))
	}
	for _, g := range vc.stack {
		if g == fn {
			panic(unsupported("recursive function %s without contract", fn))
		}
	}
	if len(vc.stack) > 24 {
		panic(unsupported("inlining too deep at %s", fn))
	}
	vc.stack = append(vc.stack, fn)
	defer func() { vc.stack = vc.stack[:len(vc.stack)-1] }()
	vc.n++
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, id: vc.n, parent: parent, site: vc.site, origin: map[string]*Addr{}, omap: map[string]*mapLoc{}}
	f.loops = findLoops(fn)
	f.order = rpo(fn)
	st = st.clone()
	for i, p := range fn.Params {
		v := args[i]
		if _, ok := p.Type().Underlying().(*types.Slice); ok && vc.P.mayMutate(p) {
			if _, isSV := v.(*SliceVar); !isSV {
				v = vc.mkSliceVar(f, st, p, vc.term(st, v), nil, nil)
			}
		}
		f.env[p] = v
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			f.env[p] = binds[i]
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				flag := fmt.Sprintf("c.defer.%d.%p", f.id, d)
				st.m[flag] = tFalse
			}
		}
	}
	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{{cond: guard, st: st}}
	vc.runBlocks(f, f.order, nil, in)
	if len(f.rets) == 0 {
		return nil, st, tFalse
	}
	// merge returns
	conds := make([]*Term, len(f.rets))
	states := make([]*State, len(f.rets))
	for i, r := range f.rets {
		conds[i], states[i] = r.cond, r.st
	}
	g, ms := vc.mergeStates(conds, states)
	n := len(f.rets[0].vals)
	out := make([]Val, n)
	for k := 0; k < n; k++ {
		vs := make([]Val, len(f.rets))
		for i, r := range f.rets {
			vs[i] = r.vals[k]
		}
		out[k] = vc.mergeVals(conds, states, vs)
	}
	return out, ms, g
}

func (vc *VC) mergeStates(conds []*Term, states []*State) (*Term, *State) {
	if len(states) == 1 {
		return conds[0], states[0].clone()
	}
	g := vc.define("reach", or(conds...))
	keys := map[string]bool{}
	for _, s := range states {
		for k := range s.m {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := &State{m: map[string]*Term{}}
	for _, k := range ks {
		var vals []*Term
		var cs []*Term
		for i, s := range states {
			t, ok := s.m[k]
			if !ok {
				if strings.HasPrefix(k, "c.") {
					continue
				}
				if k == "alloc" {
					t = vc.alloc0
				} else {
					t = vc.compInit(k, vc.compSort[k])
				}
			}
			vals = append(vals, t)
			cs = append(cs, conds[i])
		}
		r := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			if vals[i].S == r.S {
				continue
			}
			r = ite(cs[i], vals[i], r)
		}
		out.m[k] = vc.define(k, r)
	}
	return g, out
}

func (vc *VC) mergeVals(conds []*Term, states []*State, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if t0, ok := vs[0].(Tuple); ok {
		out := make(Tuple, len(t0))
		for k := range t0 {
			sub := make([]Val, len(vs))
			for i := range vs {
				sub[i] = vs[i].(Tuple)[k]
			}
			out[k] = vc.mergeVals(conds, states, sub)
		}
		return out
	}
	r := vc.term(states[len(states)-1], vs[len(vs)-1])
	for i := len(vs) - 2; i >= 0; i-- {
		t := vc.term(states[i], vs[i])
		if t.S == r.S {
			continue
		}
		r = ite(conds[i], t, r)
	}
	return vc.define("m", r)
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.S == y.S && x.Sort == y.Sort
	case *Addr:
		y, ok := b.(*Addr)
		if !ok || x.cell != y.cell || x.comp != y.comp || len(x.path) != len(y.path) {
			return false
		}
		if (x.ref == nil) != (y.ref == nil) || x.ref != nil && x.ref.S != y.ref.S {
			return false
		}
		if (x.val == nil) != (y.val == nil) || x.val != nil && x.val.S != y.val.S {
			return false
		}
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p.kind != q.kind || p.field != q.field || (p.idx == nil) != (q.idx == nil) || p.idx != nil && p.idx.S != q.idx.S {
				return false
			}
		}
		return true
	case *SliceVar:
		y, ok := b.(*SliceVar)
		return ok && x.cell == y.cell
	case *Closure:
		y, ok := b.(*Closure)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.(*Iface)
		return ok && types.Identical(x.typ, y.typ) && x.term.S == y.term.S
	case *MapIter:
		y, ok := b.(*MapIter)
		return ok && x.id == y.id
	case nil:
		return b == nil
	}
	return false
}

// term converts a value to an SMT term.
func (vc *VC) term(s *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Iface:
		return x.term
	case *SliceVar:
		t, ok := s.m[x.cell]
		if !ok {
			panic(unsupported("slice variable out of scope"))
		}
		return t
	case *Closure:
		if x.term != nil {
			return x.term
		}
		n := "fn_" + mangle(shortPath(x.fn.String()))
		vc.fun(n, "Int")
		vc.axiom(n, fmt.Sprintf("(> %s 0)", n))
		x.term = tm(n, "Int")
		if len(x.binds) > 0 {
			x.term = vc.fresh("closure", "Int")
			vc.assume(tTrue, tm(fmt.Sprintf("(> %s 0)", x.term.S), "Bool"))
			vc.closures[x.term.S] = x
		} else {
			vc.closures[x.term.S] = x
		}
		return x.term
	case *Addr:
		if x.comp != "" && len(x.path) == 0 && strings.HasPrefix(x.comp, "P.") {
			return x.ref
		}
		if x.comp != "" && strings.HasPrefix(x.comp, "H.") && s != nil {
			v := vc.load(s, x)
			if vc.st.dt(v.Sort) == nil || strings.HasPrefix(v.Sort, "Slice") {
				key := "P." + mangle(v.Sort)
				so := arrSort("Int", v.Sort)
				vc.compSort[key] = so
				r := vc.newRef(s, "interior")
				vc.set(s, key, sto(vc.get(s, key, so), r, v))
				vc.notes["the address of field "+strings.TrimPrefix(x.comp, "H.")+" is modelled as a fresh cell holding the field's value (no write through it is seen)"] = true
				return r
			}
		}
		panic(unsupported("address used as a value"))
	}
	panic(unsupported("value %T used as a term", v))
}

func (vc *VC) mkSliceVar(f *Frame, st *State, sv ssa.Value, v *Term, o *Addr, om *mapLoc) *SliceVar {
	vc.n++
	cell := fmt.Sprintf("c.sv.%s.%d", mangle(sv.Name()), vc.n)
	vc.svType[cell] = sv.Type()
	st.m[cell] = v
	vc.svOrigin[cell] = o
	vc.svMap[cell] = om
	return &SliceVar{cell}
}

func (vc *VC) svAddr(sv *SliceVar) *Addr {
	return &Addr{cell: sv.cell, origin: vc.svOrigin[sv.cell], omap: vc.svMap[sv.cell]}
}

func (vc *VC) runBlocks(f *Frame, order []*ssa.BasicBlock, cur *Loop, in map[*ssa.BasicBlock][]edge) {
	skip := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		if skip[b] {
			continue
		}
		if cur != nil && !cur.body[b] {
			continue
		}
		if l := f.loops[b]; l != nil && l != cur {
			for x := range l.body {
				skip[x] = true
			}
			if len(in[b]) == 0 {
				continue
			}
			vc.runLoop(f, l, in)
			continue
		}
		if len(in[b]) == 0 {
			continue
		}
		es := in[b]
		in[b] = nil
		vc.execMerged(f, b, es, in)
	}
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

func (vc *VC) mergeEdges(f *Frame, b *ssa.BasicBlock, es []edge) (*Term, *State, []Val) {
	conds := make([]*Term, len(es))
	states := make([]*State, len(es))
	for i, e := range es {
		conds[i], states[i] = e.cond, e.st
	}
	g, st := vc.mergeStates(conds, states)
	ps := phisOf(b)
	vals := make([]Val, len(ps))
	for k := range ps {
		vs := make([]Val, len(es))
		for i, e := range es {
			vs[i] = e.phis[k]
		}
		vals[k] = vc.mergeVals(conds, states, vs)
	}
	return g, st, vals
}

func (vc *VC) execMerged(f *Frame, b *ssa.BasicBlock, es []edge, in map[*ssa.BasicBlock][]edge) {
	g, st, vals := vc.mergeEdges(f, b, es)
	if g.S == "false" {
		return
	}
	for k, p := range phisOf(b) {
		vc.bindVal(f, st, p, vals[k])
	}
	vc.execBlock(f, b, st, g, in)
}

// bindVal binds an SSA value, wrapping mutable slices.
func (vc *VC) bindVal(f *Frame, st *State, v ssa.Value, x Val) {
	if _, ok := v.Type().Underlying().(*types.Slice); ok {
		if t, isT := x.(*Term); isT && vc.P.mayMutate(v) {
			x = vc.mkSliceVar(f, st, v, t, nil, nil)
		}
	}
	f.env[v] = x
}

func (vc *VC) execBlock(f *Frame, b *ssa.BasicBlock, st *State, g *Term, in map[*ssa.BasicBlock][]edge) {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			vc.addEdge(f, b, 0, g, st, in)
			return
		case *ssa.If:
			c := vc.term(st, vc.val(f, st, i.Cond))
			st2 := st.clone()
			ct := vc.define("br", and(g, c))
			cf := vc.define("br", and(g, not(c)))
			vc.addEdge(f, b, 0, ct, st, in)
			vc.addEdge(f, b, 1, cf, st2, in)
			return
		case *ssa.Return:
			vals := make([]Val, len(i.Results))
			for k, r := range i.Results {
				vals[k] = vc.val(f, st, r)
				if sv, ok := vals[k].(*SliceVar); ok {
					vals[k] = vc.term(st, sv)
				}
			}
			f.rets = append(f.rets, retEdge{g, st, vals})
			return
		case *ssa.Panic:
			if vc.nopanic {
				vc.oblig("nopanic:"+shortPath(f.fn.String()), "explicit panic unreachable at "+vc.pos(ins), g, tFalse)
			}
			return
		default:
			var dead bool
			st, g, dead = vc.execInstr(f, ins, st, g)
			if dead {
				return
			}
		}
	}
}

func (vc *VC) pos(i ssa.Instruction) string {
	p := vc.P.Fset.Position(i.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, vc.P.Repo+"/"), p.Line)
}

func (vc *VC) addEdge(f *Frame, b *ssa.BasicBlock, succ int, cond *Term, st *State, in map[*ssa.BasicBlock][]edge) {
	if cond.S == "false" {
		return
	}
	t := b.Succs[succ]
	// which predecessor index of t is this edge?
	pi := -1
	seen := 0
	for k := 0; k < succ; k++ {
		if b.Succs[k] == t {
			seen++
		}
	}
	for k, p := range t.Preds {
		if p == b {
			if seen == 0 {
				pi = k
				break
			}
			seen--
		}
	}
	var vals []Val
	for _, p := range phisOf(t) {
		v := vc.val(f, st, p.Edges[pi])
		if sv, ok := v.(*SliceVar); ok {
			v = vc.term(st, sv)
		}
		vals = append(vals, v)
	}
	in[t] = append(in[t], edge{cond: cond, st: st, phis: vals})
}

func (vc *VC) val(f *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return vc.constVal(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Global:
		return vc.globalAddr(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := f.env[v]
	if !ok {
		panic(unsupported("undefined value %s in %s", v.Name(), f.fn))
	}
	return r
}

func (vc *VC) globalAddr(g *ssa.Global) Val {
	et := g.Type().(*types.Pointer).Elem()
	key := "G.global." + mangle(shortPath(g.String()))
	so := vc.st.S(et)
	vc.compSort[key] = so
	if lit, ok := vc.P.regexGlobals[g]; ok {
		t := vc.compInit(key, so)
		vc.regexOf[t.S] = lit
		return &Addr{val: t}
	}
	t := vc.compInit(key, so)
	if vc.P.globalConst[g] {
		vc.axiom("glob"+key, vc.globalFact(g, t))
		return &Addr{val: t}
	}
	return &Addr{val: t}
}

func (vc *VC) globalFact(g *ssa.Global, t *Term) string {
	if isErrorType(g.Type().(*types.Pointer).Elem()) {
		return fmt.Sprintf("(not (= %s 0))", t.S)
	}
	return "true"
}

func (vc *VC) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return vc.zero(t)
	}
	u := t.Underlying()
	if b, ok := u.(*types.Basic); ok {
		i := b.Info()
		switch {
		case i&types.IsBoolean != 0:
			if constant.BoolVal(c.Value) {
				return tTrue
			}
			return tFalse
		case i&types.IsInteger != 0:
			return intLit(constant.ToInt(c.Value).ExactString())
		case i&types.IsString != 0:
			return vc.strConst(constant.StringVal(c.Value))
		case i&types.IsFloat != 0:
			fv, _ := constant.Float64Val(c.Value)
			return vc.floatConst(strconv.FormatFloat(fv, 'g', -1, 64))
		}
	}
	if _, ok := t.(*types.TypeParam); ok {
		n := "tpconst_" + mangle(c.Value.ExactString())
		so := vc.st.S(t)
		vc.fun(n, so)
		return tm(n, so)
	}
	panic(unsupported("constant %s", c))
}

func (vc *VC) floatConst(s string) *Term {
	if s == "0" {
		return vc.zeroOf("F64")
	}
	n := "f_const_" + mangle(strings.ReplaceAll(s, "-", "m"))
	vc.fun(n, "F64")
	return tm(n, "F64")
}

func intLit(s string) *Term {
	if strings.HasPrefix(s, "-") {
		return tm("(- "+s[1:]+")", "Int")
	}
	return tm(s, "Int")
}

var debug = os.Getenv("GOVC_DEBUG") != ""

func (vc *VC) addrOf(f *Frame, st *State, v ssa.Value) *Addr {
	x := vc.val(f, st, v)
	return vc.asAddr(x, v.Type())
}

// asAddr views a pointer value as an address.
func (vc *VC) asAddr(x Val, pt types.Type) *Addr {
	switch a := x.(type) {
	case *Addr:
		return a
	case *Term:
		et := pt.Underlying().(*types.Pointer).Elem()
		if _, ok := et.Underlying().(*types.Struct); ok && vc.st.dt(vc.st.S(et)) != nil {
			return &Addr{comp: "*struct", ref: a}
		}
		key, _ := vc.cellComp(et)
		return &Addr{comp: key, ref: a}
	}
	panic(unsupported("pointer value %T", x))
}

func (vc *VC) loadStruct(st *State, ref *Term, t types.Type) *Term {
	so := vc.st.S(t)
	dt := vc.st.dt(so)
	args := make([]*Term, len(dt.fields))
	for i := range dt.fields {
		key, fs, _ := vc.fieldComp(t, i)
		args[i] = sel(vc.get(st, key, fs), ref)
	}
	return vc.st.mk(so, args...)
}

func (vc *VC) storeStruct(st *State, ref *Term, t types.Type, v *Term) {
	dt := vc.st.dt(vc.st.S(t))
	for i := range dt.fields {
		key, fs, _ := vc.fieldComp(t, i)
		vc.set(st, key, sto(vc.get(st, key, fs), ref, vc.st.field(v, i)))
	}
}

// newObject allocates a struct object with zero fields.
func (vc *VC) newObject(st *State, t types.Type) *Term {
	r := vc.newRef(st, "obj")
	vc.storeStruct(st, r, t, vc.zero(t))
	return r
}

// logMade records an allocation in the ghost log the root contract keeps for its type.
func (vc *VC) logMade(st *State, pt types.Type, r *Term) {
	if vc.root == nil {
		return
	}
	for _, m := range vc.root.made {
		so, ty := vc.specSort("[]" + m[1])
		if !types.Identical(ty.Underlying().(*types.Slice).Elem(), pt) {
			continue
		}
		key := "A." + m[0]
		vc.compSort[key] = so
		cur := vc.get(st, key, so)
		n := vc.st.slen(cur)
		vc.set(st, key, vc.st.mk(so, app("Int", "+", n, intT(1)), sto(vc.st.sarr(cur), n, r), tFalse))
	}
}

func (vc *VC) nilCheck(f *Frame, ins ssa.Instruction, g, ref *Term, what string) {
	ne := not(eq(ref, intT(0)))
	if vc.nopanic {
		vc.oblig("nopanic:"+shortPath(f.fn.String()), what+" at "+vc.pos(ins), g, ne)
	}
	vc.assume(g, ne)
}

func (vc *VC) loadPtr(f *Frame, ins ssa.Instruction, st *State, g *Term, x Val, pt types.Type) Val {
	et := pt.Underlying().(*types.Pointer).Elem()
	a := vc.asAddr(x, pt)
	if a.comp == "*struct" {
		vc.nilCheck(f, ins, g, a.ref, "nil dereference")
		return vc.loadStruct(st, a.ref, et)
	}
	if a.comp != "" {
		vc.nilCheck(f, ins, g, a.ref, "nil dereference")
	}
	return vc.load(st, a)
}

func (vc *VC) execInstr(f *Frame, ins ssa.Instruction, st *State, g *Term) (*State, *Term, bool) {
	set := func(v ssa.Value, x Val) { f.env[v] = x }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		if _, ok := et.Underlying().(*types.Struct); ok && vc.st.dt(vc.st.S(et)) != nil {
			r := vc.newObject(st, et)
			set(i, r)
			vc.logMade(st, i.Type(), r)
			break
		}
		if vc.P.escapes(i) {
			key, so := vc.cellComp(et)
			r := vc.newRef(st, "cell")
			vc.set(st, key, sto(vc.get(st, key, so), r, vc.zero(et)))
			set(i, r)
			break
		}
		cell := fmt.Sprintf("c.%s.%d.%d.%s", mangle(i.Comment), f.id, i.Block().Index, i.Name())
		st.m[cell] = vc.zero(et)
		vc.cellInfo[cell] = cellMeta{name: i.Comment, typ: et}
		set(i, &Addr{cell: cell})
	case *ssa.Store:
		v := vc.val(f, st, i.Val)
		av := vc.val(f, st, i.Addr)
		a := vc.asAddr(av, i.Addr.Type())
		// closures kept in local cells
		if cl, ok := v.(*Closure); ok && a.cell != "" && len(a.path) == 0 {
			t := vc.term(st, cl)
			vc.store(st, a, t)
			break
		}
		t := vc.term(st, v)
		if a.cell != "" && len(a.path) == 0 {
			if sv, ok := v.(*SliceVar); ok {
				vc.cellAlias[a.cell] = sv
			} else {
				delete(vc.cellAlias, a.cell)
			}
		}
		if a.cell != "" && len(a.path) == 1 && a.path[0].kind == 1 {
			if ok, n := litSlice(a.path[0].idx); ok {
				if vc.cellElems[a.cell] == nil {
					vc.cellElems[a.cell] = map[int64]Val{}
				}
				vc.cellElems[a.cell][n] = v
			}
		}
		if a.comp == "*struct" {
			vc.nilCheck(f, ins, g, a.ref, "nil dereference")
			vc.storeStruct(st, a.ref, i.Val.Type(), t)
			break
		}
		if a.comp != "" {
			vc.nilCheck(f, ins, g, a.ref, "nil dereference")
		}
		if a.val != nil {
			panic(unsupported("store through an address of unknown origin at %s", vc.pos(ins)))
		}
		vc.store(st, a, t)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			xv := vc.val(f, st, i.X)
			v := vc.loadPtr(f, ins, st, g, xv, i.X.Type())
			if t, ok := v.(*Term); ok {
				t = vc.define(i.Name(), t)
				if cl, ok := vc.closures[t.S]; ok {
					v = cl
				} else {
					if !vc.bound {
						vc.assumeType(g, t, i.Type(), st)
					}
					v = t
				}
				if tt, ok := v.(*Term); ok {
					if _, isS := i.Type().Underlying().(*types.Slice); isS && vc.P.mayMutate(i) {
						a := vc.asAddr(xv, i.X.Type())
						if a.val == nil {
							v = vc.mkSliceVar(f, st, i, tt, a, nil)
						} else {
							v = vc.mkSliceVar(f, st, i, tt, nil, nil)
						}
					}
				}
			}
			set(i, v)
		case token.NOT:
			set(i, not(vc.term(st, vc.val(f, st, i.X))))
		case token.SUB:
			x := vc.term(st, vc.val(f, st, i.X))
			if x.Sort == "Int" {
				set(i, app("Int", "-", x))
			} else {
				set(i, vc.call("f_neg", "F64", x))
			}
		default:
			panic(unsupported("unary %s", i.Op))
		}
	case *ssa.BinOp:
		x := vc.term(st, vc.val(f, st, i.X))
		y := vc.term(st, vc.val(f, st, i.Y))
		set(i, vc.define(i.Name(), vc.binop(i.Op, x, y, i.X.Type(), i.Y.Type())))
	case *ssa.FieldAddr:
		x := vc.val(f, st, i.X)
		pt := i.X.Type().Underlying().(*types.Pointer)
		a := vc.asAddr(x, pt)
		if a.comp == "*struct" {
			vc.nilCheck(f, ins, g, a.ref, "nil dereference")
			key, _, _ := vc.fieldComp(pt.Elem(), i.Field)
			set(i, &Addr{comp: key, ref: a.ref})
		} else {
			set(i, a.with(step{kind: 0, field: i.Field}))
		}
	case *ssa.Field:
		x := vc.term(st, vc.val(f, st, i.X))
		set(i, vc.st.field(x, i.Field))
	case *ssa.IndexAddr:
		idx := vc.term(st, vc.val(f, st, i.Index))
		xv := vc.val(f, st, i.X)
		if sv, ok := xv.(*SliceVar); ok {
			vc.boundCheck(f, ins, g, idx, vc.st.slen(vc.term(st, sv)))
			set(i, vc.svAddr(sv).with(step{kind: 2, idx: idx}))
			break
		}
		if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
			t := vc.term(st, xv)
			vc.boundCheck(f, ins, g, idx, vc.st.slen(t))
			set(i, &Addr{val: t, path: []step{{kind: 2, idx: idx}}})
			break
		}
		a := vc.asAddr(xv, i.X.Type())
		set(i, a.with(step{kind: 1, idx: idx}))
	case *ssa.Index:
		x := vc.term(st, vc.val(f, st, i.X))
		idx := vc.term(st, vc.val(f, st, i.Index))
		if x.Sort == vc.st.Str() {
			if vc.st.strTheory {
				set(i, app("Int", "str.to_code", app("String", "str.at", x, idx)))
			} else {
				set(i, vc.call("str_at", "Int", x, idx))
			}
			break
		}
		set(i, sel(x, idx))
	case *ssa.MakeMap:
		set(i, vc.mapNew(st, i.Type().Underlying().(*types.Map)))
	case *ssa.MapUpdate:
		m := vc.term(st, vc.val(f, st, i.Map))
		k := vc.term(st, vc.val(f, st, i.Key))
		v := vc.term(st, vc.val(f, st, i.Value))
		vc.nilCheck(f, ins, g, m, "write to nil map")
		vc.mapStore(st, m, i.Map.Type().Underlying().(*types.Map), k, v)
	case *ssa.Lookup:
		x := vc.term(st, vc.val(f, st, i.X))
		k := vc.term(st, vc.val(f, st, i.Index))
		mt, isMap := i.X.Type().Underlying().(*types.Map)
		if !isMap {
			if vc.st.strTheory {
				set(i, app("Int", "str.to_code", app("String", "str.at", x, k)))
			} else {
				set(i, vc.call("str_at", "Int", x, k))
			}
			break
		}
		raw, ok := vc.mapGet(st, x, mt, k)
		v := vc.define(i.Name(), ite(ok, raw, vc.zero(mt.Elem())))
		vc.assumeType(g, v, mt.Elem(), st)
		if i.CommaOk {
			set(i, Tuple{Val(v), Val(vc.define("ok", ok))})
			vc.lookupLoc[fmt.Sprintf("%p/%d", i, f.id)] = &mapLoc{x, k, mt}
		} else {
			var vv Val = v
			if _, isS := i.Type().Underlying().(*types.Slice); isS && vc.P.mayMutate(i) {
				vv = vc.mkSliceVar(f, st, i, v, nil, &mapLoc{x, k, mt})
			}
			set(i, vv)
		}
	case *ssa.Extract:
		tv := vc.val(f, st, i.Tuple)
		tp, ok := tv.(Tuple)
		if !ok {
			panic(unsupported("extract from %T", tv))
		}
		v := tp[i.Index]
		if t, ok := v.(*Term); ok {
			if _, isS := i.Type().Underlying().(*types.Slice); isS && vc.P.mayMutate(i) {
				var ml *mapLoc
				if lk, ok := i.Tuple.(*ssa.Lookup); ok {
					ml = vc.lookupLoc[fmt.Sprintf("%p/%d", lk, f.id)]
				}
				v = vc.mkSliceVar(f, st, i, t, nil, ml)
			}
		}
		set(i, v)
	case *ssa.MakeSlice:
		ln := vc.term(st, vc.val(f, st, i.Len))
		so := vc.st.S(i.Type())
		dt := vc.st.dt(so)
		arr := tm(fmt.Sprintf("((as const %s) %s)", dt.fields[1].sort, vc.zeroOf(mustElem(dt.fields[1].sort)).S), dt.fields[1].sort)
		v := vc.st.mk(so, ln, arr, tFalse)
		if vc.P.mayMutate(i) {
			set(i, vc.mkSliceVar(f, st, i, v, nil, nil))
		} else {
			set(i, v)
		}
	case *ssa.Slice:
		set(i, vc.sliceExpr(f, ins, i, st, g))
	case *ssa.MakeInterface:
		v := vc.val(f, st, i.X)
		set(i, vc.makeIface(st, v, i.X.Type()))
	case *ssa.ChangeInterface:
		set(i, vc.val(f, st, i.X))
	case *ssa.ChangeType:
		set(i, vc.val(f, st, i.X))
	case *ssa.Convert:
		set(i, vc.convert(f, st, i))
	case *ssa.MakeClosure:
		var binds []Val
		for _, b := range i.Bindings {
			bv := vc.val(f, st, b)
			binds = append(binds, bv)
		}
		set(i, &Closure{fn: i.Fn.(*ssa.Function), binds: binds})
	case *ssa.TypeAssert:
		set(i, vc.typeAssert(f, ins, i, st, g))
	case *ssa.Range:
		set(i, vc.rangeIter(f, st, g, i))
	case *ssa.Next:
		set(i, vc.nextIter(f, st, g, i))
	case *ssa.Call:
		var r Val
		r, st, g = vc.doCall(f, ins, &i.Call, st, g)
		if g.S == "false" {
			return st, g, true
		}
		if t, ok := r.(*Term); ok {
			if _, isS := i.Type().Underlying().(*types.Slice); isS && vc.P.mayMutate(i) {
				r = vc.mkSliceVar(f, st, i, t, nil, nil)
			}
		}
		set(i, r)
	case *ssa.Defer:
		flag := fmt.Sprintf("c.defer.%d.%p", f.id, i)
		st.m[flag] = tTrue
		vals := []Val{}
		if i.Call.IsInvoke() {
			vals = append(vals, vc.val(f, st, i.Call.Value))
		} else {
			vals = append(vals, vc.val(f, st, i.Call.Value))
		}
		for _, a := range i.Call.Args {
			vals = append(vals, vc.val(f, st, a))
		}
		known := false
		for _, d := range f.defers {
			if d.flag == flag {
				known = true
			}
		}
		if !known {
			f.defers = append(f.defers, deferred{flag, &i.Call, vals})
		}
	case *ssa.RunDefers:
		for k := len(f.defers) - 1; k >= 0; k-- {
			d := f.defers[k]
			fl, ok := st.m[d.flag]
			if !ok || fl.S == "false" {
				continue
			}
			gd := vc.define("dg", and(g, fl))
			gn := vc.define("dn", and(g, not(fl)))
			st2 := st.clone()
			st2.m[d.flag] = tFalse
			_, st3, g3 := vc.doCallVals(f, ins, d.call, d.vals[0], d.vals[1:], st2, gd)
			if fl.S == "true" {
				st, g = st3, g3
			} else {
				g, st = vc.mergeStates([]*Term{g3, gn}, []*State{st3, st})
			}
		}
	case *ssa.SliceToArrayPointer, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.MakeChan:
		panic(unsupported("%T at %s", ins, vc.pos(ins)))
	default:
		panic(unsupported("instruction %T at %s", ins, vc.pos(ins)))
	}
	return st, g, false
}

func (vc *VC) boundCheck(f *Frame, ins ssa.Instruction, g, idx, n *Term) {
	c := and(app("Bool", "<=", intT(0), idx), app("Bool", "<", idx, n))
	if vc.nopanic {
		vc.oblig("nopanic:"+shortPath(f.fn.String()), "index in range at "+vc.pos(ins), g, c)
	}
	vc.assume(g, c)
}

func (vc *VC) sliceExpr(f *Frame, ins ssa.Instruction, i *ssa.Slice, st *State, g *Term) Val {
	xv := vc.val(f, st, i.X)
	var lo, hi *Term
	if i.Low != nil {
		lo = vc.term(st, vc.val(f, st, i.Low))
	}
	if i.High != nil {
		hi = vc.term(st, vc.val(f, st, i.High))
	}
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		at := p.Elem().Underlying().(*types.Array)
		a := vc.asAddr(xv, i.X.Type())
		arr := vc.load(st, a)
		so := vc.st.S(i.Type())
		n := intT(at.Len())
		if lo != nil {
			panic(unsupported("slicing an array with a low bound"))
		}
		if hi != nil {
			n = hi
		}
		r := vc.define(i.Name(), vc.st.mk(so, n, vc.define("lit", arr), tFalse))
		if els := vc.cellElems[a.cell]; els != nil && int64(len(els)) == at.Len() {
			list := make([]Val, at.Len())
			for k := range list {
				list[k] = els[int64(k)]
			}
			vc.sliceElems[r.S] = list
		}
		return r
	}
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		x := vc.term(st, xv)
		if lo == nil {
			lo = intT(0)
		}
		if vc.st.strTheory {
			n := app("Int", "str.len", x)
			if hi == nil {
				hi = n
			}
			vc.assume(g, and(app("Bool", "<=", intT(0), lo), app("Bool", "<=", lo, hi), app("Bool", "<=", hi, n)))
			return vc.define(i.Name(), app("String", "str.substr", x, lo, app("Int", "-", hi, lo)))
		}
		if hi == nil {
			hi = vc.strLen(x)
		}
		r := vc.call("str_sub", "Str", x, lo, hi)
		vc.axiom("str_sub", "(forall ((s? Str) (a? Int) (b? Int)) (! (=> (and (<= 0 a?) (<= a? b?) (<= b? (str_len s?))) (= (str_len (str_sub s? a? b?)) (- b? a?))) :pattern ((str_sub s? a? b?))))")
		return vc.define(i.Name(), r)
	}
	x := vc.term(st, xv)
	if lo == nil && hi == nil {
		return x
	}
	n := vc.st.slen(x)
	if lo == nil {
		lo = intT(0)
	}
	h := hi
	if h == nil {
		h = n
	}
	// high may extend to the capacity; contents beyond the length are unknown,
	// so require the common case h <= len.
	c := and(app("Bool", "<=", intT(0), lo), app("Bool", "<=", lo, h), app("Bool", "<=", h, n))
	if vc.nopanic {
		vc.oblig("nopanic:"+shortPath(f.fn.String()), "slice bounds at "+vc.pos(ins), g, c)
	}
	vc.assume(g, c)
	arr := vc.st.sarr(x)
	if lo.S != "0" {
		// shifted copy
		na := vc.fresh("shift", arr.Sort)
		vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (= (select %s i?) (select %s (+ i? %s))) :pattern ((select %s i?))))", na.S, arr.S, lo.S, na.S), "Bool"))
		arr = na
	}
	return vc.define(i.Name(), vc.st.mk(x.Sort, app("Int", "-", h, lo), arr, vc.st.snil(x)))
}

func (vc *VC) strLen(x *Term) *Term {
	if vc.st.strTheory {
		return app("Int", "str.len", x)
	}
	vc.strConst("")
	return vc.call("str_len", "Int", x)
}

func (vc *VC) makeIface(st *State, v Val, t types.Type) Val {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return v
	}
	if _, ok := v.(*Addr); ok {
		return &Iface{val: v, typ: t, term: vc.fresh("ifaceaddr", "Int")}
	}
	var tt *Term
	if sv, ok := v.(*SliceVar); ok {
		tt = vc.term(st, sv)
	} else {
		tt = vc.term(st, v)
	}
	return &Iface{val: v, typ: t, term: vc.box(t, tt)}
}

func (vc *VC) box(t types.Type, v *Term) *Term {
	id := vc.st.tid(t)
	b := fmt.Sprintf("box_%d_%s", id, mangle(v.Sort))
	u := fmt.Sprintf("unbox_%d_%s", id, mangle(v.Sort))
	vc.fun(b, "Int", v.Sort)
	vc.fun(u, v.Sort, "Int")
	vc.fun("tagof", "Int", "Int")
	vc.axiom(b, fmt.Sprintf("(forall ((x? %s)) (! (and (> (%s x?) 0) (= (tagof (%s x?)) %d) (= (%s (%s x?)) x?)) :pattern ((%s x?))))", v.Sort, b, b, id, u, b, b))
	return app("Int", b, v)
}

func (vc *VC) unbox(t types.Type, v *Term) *Term {
	so := vc.st.S(t)
	id := vc.st.tid(t)
	u := fmt.Sprintf("unbox_%d_%s", id, mangle(so))
	vc.fun(u, so, "Int")
	b := fmt.Sprintf("box_%d_%s", id, mangle(so))
	vc.fun(b, "Int", so)
	vc.fun("tagof", "Int", "Int")
	vc.axiom(b, fmt.Sprintf("(forall ((x? %s)) (! (and (> (%s x?) 0) (= (tagof (%s x?)) %d) (= (%s (%s x?)) x?)) :pattern ((%s x?))))", so, b, b, id, u, b, b))
	return app(so, u, v)
}

func (vc *VC) typeAssert(f *Frame, ins ssa.Instruction, i *ssa.TypeAssert, st *State, g *Term) Val {
	xv := vc.val(f, st, i.X)
	if ifc, ok := xv.(*Iface); ok && types.Identical(ifc.typ, i.AssertedType) {
		if i.CommaOk {
			return Tuple{ifc.val, Val(tTrue)}
		}
		return ifc.val
	}
	x := vc.term(st, xv)
	vc.fun("tagof", "Int", "Int")
	if _, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		ok := and(not(eq(x, intT(0))), vc.call(fmt.Sprintf("implements_%d", vc.st.tid(i.AssertedType)), "Bool", app("Int", "tagof", x)))
		if i.CommaOk {
			ok = vc.define("ok", ok)
			return Tuple{Val(ite(ok, x, intT(0))), Val(ok)}
		}
		vc.assume(g, ok)
		return x
	}
	ok := and(not(eq(x, intT(0))), eq(app("Int", "tagof", x), intT(int64(vc.st.tid(i.AssertedType)))))
	v := vc.unbox(i.AssertedType, x)
	if i.CommaOk {
		ok = vc.define("ok", ok)
		r := vc.define("ta", ite(ok, v, vc.zero(i.AssertedType)))
		vc.assumeType(g, r, i.AssertedType, st)
		return Tuple{Val(r), Val(ok)}
	}
	if vc.nopanic {
		vc.oblig("nopanic:"+shortPath(f.fn.String()), "type assertion at "+vc.pos(ins), g, ok)
	}
	vc.assume(g, ok)
	r := vc.define("ta", v)
	vc.assumeType(g, r, i.AssertedType, st)
	return r
}

func (vc *VC) convert(f *Frame, st *State, i *ssa.Convert) Val {
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	x := vc.term(st, vc.val(f, st, i.X))
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return vc.define(i.Name(), wrapInt(x, tb, fb))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return vc.call("i2f", "F64", x)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return x
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return vc.call("f2i", "Int", x)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return vc.call("rune2str", vc.st.Str(), x)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := from.(*types.Slice); ok {
			return vc.bytesToStr(x, sl)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if _, ok := to.(*types.Slice); ok {
			r := vc.call("str2bytes", vc.st.S(i.Type()), x)
			return r
		}
	}
	if vc.st.S(i.Type()) == x.Sort {
		return x
	}
	panic(unsupported("conversion %s -> %s", i.X.Type(), i.Type()))
}

func (vc *VC) bytesToStr(x *Term, sl *types.Slice) *Term {
	// string(b): determined by the bytes; equal strings only for equal contents
	return vc.call("bytes2str", vc.st.Str(), x)
}

func intRange(b *types.Basic) (lo, hi, mod string, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return "(- 9223372036854775808)", "9223372036854775807", "18446744073709551616", true
	case types.Int32, types.UntypedRune:
		return "(- 2147483648)", "2147483647", "4294967296", true
	case types.Int16:
		return "(- 32768)", "32767", "65536", true
	case types.Int8:
		return "(- 128)", "127", "256", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", "18446744073709551616", true
	case types.Uint32:
		return "0", "4294967295", "4294967296", true
	case types.Uint16:
		return "0", "65535", "65536", true
	case types.Uint8:
		return "0", "255", "256", true
	}
	return "", "", "", false
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

func wrapInt(x *Term, to, from *types.Basic) *Term {
	tb, ts := intBits(to)
	fb, fs := intBits(from)
	if ts == fs && tb >= fb || ts && !fs && tb > fb {
		return x
	}
	lo, hi, mod, _ := intRange(to)
	if !ts {
		return tm(fmt.Sprintf("(ite (and (<= 0 %s) (<= %s %s)) %s (mod %s %s))", x.S, x.S, hi, x.S, x.S, mod), "Int")
	}
	return tm(fmt.Sprintf("(ite (and (<= %s %s) (<= %s %s)) %s (- (mod (+ %s %s) %s) %s))", lo, x.S, x.S, hi, x.S, x.S, negate(lo), mod, negate(lo)), "Int")
}

func negate(s string) string {
	if strings.HasPrefix(s, "(- ") {
		return s[3 : len(s)-1]
	}
	return "(- " + s + ")"
}

func (vc *VC) binop(op token.Token, x, y *Term, tx, ty types.Type) *Term {
	b, _ := tx.Underlying().(*types.Basic)
	isStr := x.Sort == vc.st.Str()
	switch op {
	case token.EQL:
		return vc.goEq(x, y, tx)
	case token.NEQ:
		return not(vc.goEq(x, y, tx))
	}
	if isStr {
		switch op {
		case token.ADD:
			return vc.strCat(x, y)
		case token.LSS:
			return vc.strLt(x, y)
		case token.GTR:
			return vc.strLt(y, x)
		case token.LEQ:
			return not(vc.strLt(y, x))
		case token.GEQ:
			return not(vc.strLt(x, y))
		}
	}
	if x.Sort == "F64" {
		switch op {
		case token.ADD:
			r := vc.call("f_add", "F64", x, y)
			vc.axiom("f_addc", "(forall ((a? F64) (b? F64)) (! (= (f_add a? b?) (f_add b? a?)) :pattern ((f_add a? b?))))")
			return r
		case token.SUB:
			return vc.call("f_sub", "F64", x, y)
		case token.MUL:
			r := vc.call("f_mul", "F64", x, y)
			vc.axiom("f_mulc", "(forall ((a? F64) (b? F64)) (! (= (f_mul a? b?) (f_mul b? a?)) :pattern ((f_mul a? b?))))")
			return r
		case token.QUO:
			return vc.call("f_div", "F64", x, y)
		case token.LSS:
			return vc.flt(x, y)
		case token.GTR:
			return vc.flt(y, x)
		case token.LEQ:
			return or(vc.flt(x, y), eq(x, y))
		case token.GEQ:
			return or(vc.flt(y, x), eq(x, y))
		}
	}
	if x.Sort == "Bool" {
		switch op {
		case token.AND:
			return and(x, y)
		case token.OR:
			return or(x, y)
		}
	}
	if x.Sort == "Int" && b != nil {
		_, signed := intBits(b)
		wrap := func(t *Term) *Term {
			if signed {
				return t // mathematical: signed overflow is assumed absent (documented)
			}
			_, hi, mod, _ := intRange(b)
			return tm(fmt.Sprintf("(let ((w? %s)) (ite (< w? 0) (+ w? %s) (ite (> w? %s) (- w? %s) w?)))", t.S, mod, hi, mod), "Int")
		}
		switch op {
		case token.ADD:
			return wrap(app("Int", "+", x, y))
		case token.SUB:
			return wrap(app("Int", "-", x, y))
		case token.MUL:
			if signed {
				return app("Int", "*", x, y)
			}
			_, hi, mod, _ := intRange(b)
			return tm(fmt.Sprintf("(let ((w? (* %s %s))) (ite (> w? %s) (mod w? %s) w?))", x.S, y.S, hi, mod), "Int")
		case token.QUO:
			if !signed {
				return app("Int", "div", x, y)
			}
			return tm(fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", x.S, x.S, y.S, x.S, y.S), "Int")
		case token.REM:
			if !signed {
				return app("Int", "mod", x, y)
			}
			return tm(fmt.Sprintf("(ite (>= %s 0) (mod %s %s) (- (mod (- %s) %s)))", x.S, x.S, y.S, x.S, y.S), "Int")
		case token.LSS:
			return app("Bool", "<", x, y)
		case token.LEQ:
			return app("Bool", "<=", x, y)
		case token.GTR:
			return app("Bool", ">", x, y)
		case token.GEQ:
			return app("Bool", ">=", x, y)
		}
	}
	// ordered type parameters
	if strings.HasPrefix(x.Sort, "TP_") {
		lt := "lt_" + x.Sort
		switch op {
		case token.LSS:
			return vc.call(lt, "Bool", x, y)
		case token.GTR:
			return vc.call(lt, "Bool", y, x)
		}
	}
	panic(unsupported("operator %s on %s", op, tx))
}

func (vc *VC) flt(x, y *Term) *Term {
	r := vc.call("f_lt", "Bool", x, y)
	// IEEE < on the values considered (NaN excluded, documented): a strict total order
	vc.axiom("f_lt", "(forall ((a? F64) (b? F64)) (! (and (not (and (f_lt a? b?) (f_lt b? a?))) (or (f_lt a? b?) (f_lt b? a?) (= a? b?))) :pattern ((f_lt a? b?))))")
	vc.axiom("f_ltt", "(forall ((a? F64) (b? F64) (c? F64)) (! (=> (and (f_lt a? b?) (f_lt b? c?)) (f_lt a? c?)) :pattern ((f_lt a? b?) (f_lt b? c?))))")
	return r
}

func (vc *VC) strLt(x, y *Term) *Term {
	if vc.st.strTheory {
		return app("Bool", "str.<", x, y)
	}
	r := vc.call("str_lt", "Bool", x, y)
	vc.axiom("str_lt", "(forall ((a? Str) (b? Str)) (! (and (not (and (str_lt a? b?) (str_lt b? a?))) (or (str_lt a? b?) (str_lt b? a?) (= a? b?))) :pattern ((str_lt a? b?))))")
	vc.axiom("str_ltt", "(forall ((a? Str) (b? Str) (c? Str)) (! (=> (and (str_lt a? b?) (str_lt b? c?)) (str_lt a? c?)) :pattern ((str_lt a? b?) (str_lt b? c?))))")
	return r
}

// strCat builds a canonical concatenation: right-nested, flattened, with
// adjacent literals merged.
func (vc *VC) strCat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if p, ok := vc.cats[t.S]; ok {
			parts = append(parts, p...)
		} else {
			parts = append(parts, t)
		}
	}
	var out []*Term
	for _, p := range parts {
		if l, ok := vc.strLit(p); ok {
			if l == "" {
				continue
			}
			if len(out) > 0 {
				if l0, ok0 := vc.strLit(out[len(out)-1]); ok0 {
					out[len(out)-1] = vc.strConst(l0 + l)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return vc.strConst("")
	}
	if len(out) == 1 {
		return out[0]
	}
	if vc.st.strTheory {
		r := app("String", "str.++", out...)
		r = vc.define("cat", r)
		vc.cats[r.S] = out
		return r
	}
	vc.strConst("")
	vc.fun("str_cat", "Str", "Str", "Str")
	vc.axiom("str_cat", "(forall ((a? Str) (b? Str)) (! (= (str_len (str_cat a? b?)) (+ (str_len a?) (str_len b?))) :pattern ((str_cat a? b?))))")
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = app("Str", "str_cat", out[i], r)
	}
	r = vc.define("cat", r)
	vc.cats[r.S] = out
	return r
}

func (vc *VC) strLit(t *Term) (string, bool) {
	l, ok := vc.litOf[t.S]
	return l, ok
}

func (vc *VC) goEq(x, y *Term, t types.Type) *Term {
	if vc.st.isSlice(x.Sort) {
		// only comparison with nil is legal Go
		if strings.Contains(y.S, "zeroarr_") {
			return vc.st.snil(x)
		}
		if strings.Contains(x.S, "zeroarr_") {
			return vc.st.snil(y)
		}
		panic(unsupported("slice comparison"))
	}
	return eq(x, y)
}

func (vc *VC) rangeIter(f *Frame, st *State, g *Term, i *ssa.Range) Val {
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over string"))
	}
	ref := vc.term(st, vc.val(f, st, i.X))
	dom, _, ln, ds, _, ls := vc.mapComps(mt)
	ks := vc.st.S(mt.Key())
	vc.n++
	id := fmt.Sprintf("it%d", vc.n)
	keys := vc.fresh(id+"_keys", arrSort("Int", ks))
	posOf := fmt.Sprintf("%s_posof", id)
	vc.items = append(vc.items, fmt.Sprintf("(declare-fun %s (%s) Int)", posOf, ks))
	n := vc.define(id+"_n", sel(vc.get(st, ln, ls), ref))
	d := vc.define(id+"_dom", sel(vc.get(st, dom, ds), ref))
	vc.assume(tTrue, tm(fmt.Sprintf("(<= 0 %s)", n.S), "Bool"))
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) (and (select %s (select %s i?)) (= (%s (select %s i?)) i?))) :pattern ((select %s i?))))", n.S, d.S, keys.S, posOf, keys.S, keys.S), "Bool"))
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((k? %s)) (! (=> (select %s k?) (and (<= 0 (%s k?)) (< (%s k?) %s) (= (select %s (%s k?)) k?))) :pattern ((select %s k?)) :pattern ((%s k?))))", ks, d.S, posOf, posOf, n.S, keys.S, posOf, d.S, posOf), "Bool"))
	pos := "c.iter." + id
	st.m[pos] = intT(0)
	vc.cellInfo[pos] = cellMeta{name: "$iter", typ: types.Typ[types.Int]}
	it := &MapIter{id: id, keys: keys, n: n, pos: pos, ref: ref, mt: mt}
	vc.iterByPos[pos] = it
	return it
}

func (vc *VC) nextIter(f *Frame, st *State, g *Term, i *ssa.Next) Val {
	it, ok := vc.val(f, st, i.Iter).(*MapIter)
	if !ok {
		panic(unsupported("next on %T", vc.val(f, st, i.Iter)))
	}
	pos := st.m[it.pos]
	okT := vc.define("ok", app("Bool", "<", pos, it.n))
	vc.assume(tTrue, tm(fmt.Sprintf("(<= 0 %s)", pos.S), "Bool"))
	k := vc.define("k", sel(it.keys, pos))
	v, _ := vc.mapGet(st, it.ref, it.mt, k)
	v = vc.define("v", v)
	vc.assumeType(g, k, it.mt.Key(), st)
	vc.assumeType(g, v, it.mt.Elem(), st)
	vc.set(st, it.pos, ite(okT, app("Int", "+", pos, intT(1)), pos))
	return Tuple{Val(okT), Val(k), Val(v)}
}
