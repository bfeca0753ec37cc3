package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vc *VC) doCall(f *Frame, ins ssa.Instruction, c *ssa.CallCommon, st *State, g *Term) (Val, *State, *Term) {
	var fv Val
	if _, ok := c.Value.(*ssa.Builtin); ok {
		fv = c.Value
	} else {
		fv = vc.val(f, st, c.Value)
	}
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = vc.val(f, st, a)
	}
	return vc.doCallVals(f, ins, c, fv, args, st, g)
}

func pack(vals []Val) Val {
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return Tuple(vals)
}

func (vc *VC) doCallVals(f *Frame, ins ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val, st *State, g *Term) (Val, *State, *Term) {
	if b, ok := fv.(*ssa.Builtin); ok {
		v, s2 := vc.builtin(f, ins, b, c, args, st, g)
		return v, s2, g
	}
	if c.IsInvoke() {
		if ifc, ok := fv.(*Iface); ok {
			fn := vc.P.prog.LookupMethod(ifc.typ, c.Method.Pkg(), c.Method.Name())
			if fn != nil {
				return vc.callFn(f, ins, fn, append([]Val{ifc.val}, args...), nil, st, g)
			}
		}
		name := objName(c.Method)
		if ct, ok := vc.P.Spec.contracts[name]; ok {
			sig := c.Method.Type().(*types.Signature)
			var ptypes []types.Type
			ptypes = append(ptypes, c.Value.Type())
			for i := 0; i < sig.Params().Len(); i++ {
				ptypes = append(ptypes, sig.Params().At(i).Type())
			}
			vals, s2 := vc.useContract(f, ins, ct, nil, ptypes, sig.Results(), append([]Val{fv}, args...), st, g)
			return pack(vals), s2, g
		}
		if m, ok := invokeModels[name]; ok {
			vc.models[name] = true
			v := m(vc, &modelCtx{f: f, ins: ins, c: c, st: st, g: g}, append([]Val{fv}, args...))
			return v, st, g
		}
		return vc.externCall(f, ins, name, c.Signature(), args, st, g)
	}
	switch x := fv.(type) {
	case *Closure:
		if x.bound != nil {
			args = append([]Val{x.bound}, args...)
		}
		return vc.callFn(f, ins, x.fn, args, x.binds, st, g)
	case *Term:
		if cl, ok := vc.closures[x.S]; ok {
			return vc.callFn(f, ins, cl.fn, args, cl.binds, st, g)
		}
		// unknown function value: a pure function of its arguments (documented assumption)
		var ts []*Term
		for _, a := range args {
			ts = append(ts, vc.term(st, a))
		}
		sig := c.Value.Type().Underlying().(*types.Signature)
		if sig.Results().Len() != 1 {
			panic(unsupported("call of unknown function value with %d results at %s", sig.Results().Len(), vc.pos(ins)))
		}
		r := vc.define("apply", vc.applyFn(x, sig, ts))
		vc.assumeType(g, r, sig.Results().At(0).Type(), st)
		return r, st, g
	}
	panic(unsupported("call of %T at %s", fv, vc.pos(ins)))
}

func (vc *VC) applyFn(fn *Term, sig *types.Signature, args []*Term) *Term {
	so := vc.st.S(sig.Results().At(0).Type())
	n := "apply_" + mangle(so)
	sorts := []Sort{"Int"}
	for _, a := range args {
		n += "_" + mangle(a.Sort)
		sorts = append(sorts, a.Sort)
	}
	vc.fun(n, so, sorts...)
	return app(so, n, append([]*Term{fn}, args...)...)
}

func hasClosure(args []Val) bool {
	for _, a := range args {
		if _, ok := a.(*Closure); ok {
			return true
		}
	}
	return false
}

func inlinable(fn *ssa.Function) bool {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	var path string
	if o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if o.Object() != nil && o.Object().Pkg() != nil {
		path = o.Object().Pkg().Path()
	} else if o.Parent() != nil {
		return inlinable(o.Parent())
	}
	if strings.HasPrefix(path, modPath) || path == "github.com/samber/lo" || path == "container/heap" || path == "gopkg.in/guregu/null.v4" {
		return true
	}
	return path == "" && fn.Synthetic != ""
}

func (vc *VC) callFn(f *Frame, ins ssa.Instruction, fn *ssa.Function, args []Val, binds []Val, st *State, g *Term) (Val, *State, *Term) {
	name := fname(fn)
	full := fn.String()
	if fn.Origin() != nil {
		full = fn.Origin().String()
	}
	mc := &modelCtx{f: f, ins: ins, st: st, g: g, fn: fn}
	if m, ok := models[full]; ok {
		vc.models[full] = true
		v := m(vc, mc, args)
		return v, mc.st, mc.g
	}
	for _, p := range noopPkgs {
		if strings.Contains(full, p) {
			vc.models[p+" (no effect on program state)"] = true
			return vc.noopResult(fn.Signature, st), st, g
		}
	}
	if ct, ok := vc.P.Spec.contracts[name]; ok && !ct.inline && !(hasClosure(args) && !ct.trusted) && len(binds) == 0 {
		var pt []types.Type
		for _, p := range fn.Params {
			pt = append(pt, p.Type())
		}
		if len(fn.Params) == 0 {
			if r := fn.Signature.Recv(); r != nil {
				pt = append(pt, r.Type())
			}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				pt = append(pt, fn.Signature.Params().At(i).Type())
			}
		}
		vals, s2 := vc.useContract(f, ins, ct, fn, pt, fn.Signature.Results(), args, st, g)
		return pack(vals), s2, g
	}
	if len(fn.Blocks) > 0 && inlinable(fn) {
		if !strings.Contains(full, "$") {
			vc.inlined[name] = true
		}
		// a recursive call of a function under verification needs its contract
		vc.site = ins
		vals, s2, g2 := vc.callBody(fn, args, binds, st, g, f)
		if len(vals) == 0 && fn.Signature.Results().Len() > 0 {
			// never returns
			return nil, s2, tFalse
		}
		return pack(vals), s2, g2
	}
	return vc.externCall(f, ins, full, fn.Signature, args, st, g)
}

func (vc *VC) noopResult(sig *types.Signature, st *State) Val {
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		so := vc.st.S(t)
		n := "noop_" + mangle(typeKey(t))
		vc.fun(n, so)
		if so == "Int" {
			vc.axiom(n, fmt.Sprintf("(= %s 0)", n))
		}
		vals = append(vals, tm(n, so))
	}
	return pack(vals)
}

// externCall: a dependency without contract or model. Its results are
// arbitrary values of their types and whatever it is handed an address of is
// overwritten arbitrarily.
func (vc *VC) externCall(f *Frame, ins ssa.Instruction, name string, sig *types.Signature, args []Val, st *State, g *Term) (Val, *State, *Term) {
	vc.externs[name] = true
	if vc.bound {
		panic(unsupported("external call %s under a quantifier", name))
	}
	st = st.clone()
	al := vc.fresh("alloc", "Int")
	vc.assume(tTrue, app("Bool", ">=", al, vc.alloc(st)))
	st.m["alloc"] = al
	for _, a := range args {
		vc.havocArg(st, a, sig, 0)
	}
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		so := vc.st.S(t)
		v := vc.fresh("ext_"+trunc(mangle(name), 40), so)
		if so == "Int" {
			// results may be newly allocated objects
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Map:
				al := vc.fresh("alloc", "Int")
				vc.assume(tTrue, app("Bool", ">=", al, vc.alloc(st)))
				st.m["alloc"] = al
			}
		}
		vc.assumeType(g, v, t, st)
		vals = append(vals, v)
	}
	return pack(vals), st, g
}

func (vc *VC) havocArg(st *State, a Val, sig *types.Signature, depth int) {
	switch x := a.(type) {
	case *Addr:
		if x.val == nil {
			cur := vc.load(st, x)
			nv := vc.fresh("scan", cur.Sort)
			if x.cell != "" {
				if ci, ok := vc.cellInfo[x.cell]; ok && len(x.path) == 0 {
					vc.assumeType(tTrue, nv, ci.typ, st)
				}
			}
			vc.store(st, x, nv)
		}
	case *Iface:
		if _, ok := x.val.(*Addr); ok {
			vc.havocArg(st, x.val, sig, depth)
			return
		}
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			if t, ok := x.val.(*Term); ok {
				vc.havocObj(st, t, p.Elem())
			}
		}
	case *Term:
		if els, ok := vc.sliceElems[x.S]; ok {
			for _, e := range els {
				vc.havocArg(st, e, sig, depth+1)
			}
		}
	}
}

func (vc *VC) havocObj(st *State, ref *Term, t types.Type) {
	if s, ok := t.Underlying().(*types.Struct); ok && vc.st.dt(vc.st.S(t)) != nil {
		for i := 0; i < s.NumFields(); i++ {
			key, so, ft := vc.fieldComp(t, i)
			nv := vc.fresh("havoc", mustElem(so))
			vc.assumeType(tTrue, nv, ft, st)
			vc.set(st, key, sto(vc.get(st, key, so), ref, nv))
		}
		return
	}
	key, so := vc.cellComp(t)
	nv := vc.fresh("havoc", mustElem(so))
	vc.assumeType(tTrue, nv, t, st)
	vc.set(st, key, sto(vc.get(st, key, so), ref, nv))
}

// ---- contracts at call sites ----

func (vc *VC) useContract(f *Frame, ins ssa.Instruction, ct *Contract, fn *ssa.Function, pts []types.Type, results *types.Tuple, args []Val, st *State, g *Term) ([]Val, *State) {
	vc.useLog[ct.name] = true
	if vc.bound {
		panic(unsupported("contract call under a quantifier (%s)", ct.name))
	}
	env := map[string]SpecVal{}
	if len(ct.params) != len(args) {
		panic(unsupported("contract of %s names %d parameters, the code has %d", ct.name, len(ct.params), len(args)))
	}
	for i, p := range ct.params {
		env[p] = SpecVal{t: vc.term(st, args[i]), typ: pts[i]}
		if fn != nil && i < len(fn.Params) && vc.P.mayMutate(fn.Params[i]) {
			panic(unsupported("contract call of %s, which updates slice elements in place", ct.name))
		}
	}
	pre := st.clone()
	ctx := &specCtx{vc: vc, st: pre, old: pre, env: env, oenv: env}
	ctx.recs = vc.instRecs(ct, ctx)
	for _, r := range ct.requires {
		if !vc.tagActive(r.tags) {
			continue
		}
		t := ctx.bool(r.n)
		vc.obligTagged(r.tags, fmt.Sprintf("%s calls %s: requires %s", fname(f.fn), ct.name, r.label), r.src+" at "+vc.pos(ins), g, t)
		vc.assume(g, t)
	}
	st = st.clone()
	keys := vc.modset(ct, fn)
	hk := []string{"alloc"}
	for _, k := range sortedSortKeys(keys) {
		if k != "alloc" {
			hk = append(hk, k)
			vc.compSort[k] = keys[k]
			vc.st.importSort(keys[k])
		}
	}
	if ct.trusted && (fn == nil || !inlinable(fn)) {
		// a dependency: it may allocate, and write what it is handed the address of
		al := vc.fresh("alloc", "Int")
		vc.assume(tTrue, app("Bool", ">=", al, vc.alloc(st)))
		st.m["alloc"] = al
		for _, a := range args {
			vc.havocArg(st, a, nil, 0)
		}
	}
	if len(hk) > 1 || !ct.iface {
		vc.havocKeys(st, hk)
	} else {
		al := vc.fresh("alloc", "Int")
		vc.assume(tTrue, app("Bool", ">=", al, vc.alloc(st)))
		st.m["alloc"] = al
	}
	if ct.frame {
		for _, k := range hk {
			if fr := vc.frameFact(k, pre, st, vc.alloc(pre), ct); fr != nil {
				vc.assume(tTrue, fr)
			}
		}
	}
	renv := cloneEnv(env)
	var vals []Val
	for i := 0; i < results.Len(); i++ {
		t := results.At(i).Type()
		var v *Term
		v = vc.fresh("res_"+trunc(mangle(ct.name), 30), vc.st.S(t))
		vc.assumeType(g, v, t, st)
		vals = append(vals, v)
		if i < len(ct.results) {
			renv[ct.results[i]] = SpecVal{t: v, typ: t}
		}
	}
	for _, m := range ct.made {
		so, ty := vc.specSort("[]" + m[1])
		renv[m[0]] = SpecVal{t: vc.fresh("made_"+m[0], so), typ: ty}
	}
	c2 := &specCtx{vc: vc, st: st, old: pre, env: renv, oenv: renv, recs: ctx.recs}
	for _, e := range ct.ensures {
		if !vc.tagActive(e.tags) && !ct.iface && !ct.trusted {
			continue // not established by this property's check
		}
		vc.assume(g, c2.bool(e.n))
	}
	for _, e := range ct.assumes {
		if !vc.tagActive(e.tags) {
			continue
		}
		vc.assume(g, c2.bool(e.n))
	}
	return vals, st
}

func sortedSortKeys(m map[string]Sort) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func (vc *VC) frameFact(k string, pre, post *State, bound *Term, ct *Contract) *Term {
	if !(strings.HasPrefix(k, "H.") || strings.HasPrefix(k, "P.") || strings.HasPrefix(k, "M.")) {
		return nil
	}
	for _, w := range ct.writes {
		if strings.HasSuffix(k, w) {
			return nil
		}
	}
	so := vc.compSort[k]
	a, b := vc.get(post, k, so), vc.get(pre, k, so)
	if a.S == b.S {
		return nil
	}
	return tm(fmt.Sprintf("(forall ((r? Int)) (! (=> (<= r? %s) (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", bound.S, a.S, b.S, a.S), "Bool")
}

func (vc *VC) instRecs(ct *Contract, ctx *specCtx) map[string]*recInst {
	if len(ct.recs) == 0 {
		return nil
	}
	out := map[string]*recInst{}
	for _, r := range ct.recs {
		vc.n++
		ri := vc.mkRec(r, fmt.Sprintf("%s!%d", r.name, vc.n))
		out[r.name] = ri
	}
	for _, r := range ct.recs {
		c2 := *ctx
		c2.recs = out
		for _, ax := range vc.recAxiom(&c2, r, out[r.name]) {
			vc.items = append(vc.items, ax)
		}
	}
	return out
}

// modset infers the state components a contracted function may change.
func (vc *VC) modset(ct *Contract, fn *ssa.Function) map[string]Sort {
	if m, ok := vc.P.modGet(ct.name); ok {
		return m
	}
	if m, ok := vc.modTmp[ct.name]; ok {
		return m // recursive call while the set is being inferred
	}
	outer := len(vc.modTmp) == 0
	if vc.modTmp == nil {
		vc.modTmp = map[string]map[string]Sort{}
	}
	out := map[string]Sort{}
	if ct.iface || ct.trusted || fn == nil || len(fn.Blocks) == 0 {
		for _, g := range ct.modifies {
			if strings.HasPrefix(g, "H.") {
				continue
			}
			so, _ := vc.specSort(vc.P.Spec.ghosts[g])
			out["G."+g] = so
		}
		vc.P.modPut(ct.name, out)
		return out
	}
	for _, c := range ct.sets {
		so, _ := vc.specSort(vc.P.Spec.ghosts[c.label])
		out["G."+c.label] = so
	}
	for round := 0; ; round++ {
		vc.modTmp[ct.name] = out
		w := vc.P.newVC(ct, fn, "")
		w.quiet++
		w.dry++
		w.modTmp = vc.modTmp
		w.st.strTheory = vc.st.strTheory
		w.st = newSortTable(vc.st.strTheory)
		args := w.rootArgs(fn)
		_, st, _ := w.callBody(fn, args, nil, &State{m: map[string]*Term{}}, tTrue, nil)
		n := len(out)
		m2 := map[string]Sort{}
		for k, v := range out {
			m2[k] = v
		}
		for k, t := range st.m {
			if strings.HasPrefix(k, "c.") {
				continue
			}
			if k != "alloc" {
				if in, ok := w.inits[k]; ok && in.S == t.S {
					continue
				}
			}
			m2[k] = t.Sort
		}
		out = m2
		if len(out) == n {
			break
		}
	}
	if outer {
		delete(vc.modTmp, ct.name)
		vc.P.modPut(ct.name, out)
	} else {
		// an inner result may rest on an unfinished outer one: do not publish it
		delete(vc.modTmp, ct.name)
	}
	return out
}

// ---- builtins ----

func (vc *VC) builtin(f *Frame, ins ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, g *Term) (Val, *State) {
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		if b.Name() == "cap" {
			panic(unsupported("cap"))
		}
		switch u := t.(type) {
		case *types.Slice:
			return vc.st.slen(vc.term(st, args[0])), st
		case *types.Map:
			_, _, ln, _, _, ls := vc.mapComps(u)
			return vc.define("len", sel(vc.get(st, ln, ls), vc.term(st, args[0]))), st
		case *types.Basic:
			return vc.strLen(vc.term(st, args[0])), st
		}
		panic(unsupported("len of %s", t))
	case "append":
		a := vc.term(st, args[0])
		bt := vc.term(st, args[1])
		if bt.Sort != a.Sort {
			panic(unsupported("append of %s to %s", bt.Sort, a.Sort))
		}
		return vc.appendT(a, bt), st
	case "copy":
		sv, ok := args[0].(*SliceVar)
		if !ok {
			panic(unsupported("copy into an untracked slice"))
		}
		d := vc.term(st, sv)
		s := vc.term(st, args[1])
		n := vc.define("ncopy", tm(fmt.Sprintf("(ite (< %s %s) %s %s)", vc.st.slen(d).S, vc.st.slen(s).S, vc.st.slen(d).S, vc.st.slen(s).S), "Int"))
		na := vc.fresh("copyarr", vc.st.sarr(d).Sort)
		vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (= (select %s i?) (ite (and (<= 0 i?) (< i? %s)) (select %s i?) (select %s i?))) :pattern ((select %s i?))))", na.S, n.S, vc.st.sarr(s).S, vc.st.sarr(d).S, na.S), "Bool"))
		ad := vc.svAddr(sv)
		vc.store(st, ad, vc.st.mk(d.Sort, vc.st.slen(d), na, vc.st.snil(d)))
		return n, st
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		vc.mapDelete(st, vc.term(st, args[0]), mt, vc.term(st, args[1]))
		return nil, st
	case "min", "max":
		x, y := vc.term(st, args[0]), vc.term(st, args[1])
		if x.Sort == "Int" && len(args) == 2 {
			if b.Name() == "min" {
				return ite(app("Bool", "<=", x, y), x, y), st
			}
			return ite(app("Bool", ">=", x, y), x, y), st
		}
	case "ssa:wrapnilchk":
		return args[0], st
	case "print", "println":
		return nil, st
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (vc *VC) appendT(a, b *Term) *Term {
	la, lb := vc.st.slen(a), vc.st.slen(b)
	if lb.S == "0" {
		return a
	}
	if els, n := litSlice(lb); els {
		if n <= 8 {
			arr := vc.st.sarr(a)
			for k := int64(0); k < n; k++ {
				idx := la
				if k > 0 {
					idx = app("Int", "+", la, intT(k))
				}
				arr = sto(arr, idx, sel(vc.st.sarr(b), intT(k)))
			}
			na := vc.define("apparr", arr)
			vc.upward(vc.st.sarr(a), na, la)
			return vc.define("app", vc.st.mk(a.Sort, vc.define("applen", app("Int", "+", la, intT(n))), na, tFalse))
		}
	}
	if vc.bound {
		panic(unsupported("append under a quantifier"))
	}
	na := vc.fresh("apparr", vc.st.sarr(a).Sort)
	aa, ba := vc.st.sarr(a), vc.st.sarr(b)
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (= (select %s i?) (ite (< i? %s) (select %s i?) (select %s (- i? %s)))) :pattern ((select %s i?))))", na.S, la.S, aa.S, ba.S, la.S, na.S), "Bool"))
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) (= (select %s (+ %s i?)) (select %s i?))) :pattern ((select %s i?))))", lb.S, na.S, la.S, ba.S, ba.S), "Bool"))
	vc.upward(aa, na, la)
	nl := and(vc.st.snil(a), eq(lb, intT(0)))
	return vc.define("app", vc.st.mk(a.Sort, vc.define("applen", app("Int", "+", la, lb)), na, nl))
}

// upward makes elements of the old content visible as elements of the appended one
// (witnesses of existential goals); it follows from the definition of the append.
func (vc *VC) upward(old, nw, n *Term) {
	if vc.bound || strings.HasPrefix(old.S, "((as const") || strings.HasPrefix(old.S, "zarr_") || strings.HasPrefix(old.S, "zeroarr") {
		return
	}
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (=> (< i? %s) (= (select %s i?) (select %s i?))) :pattern ((select %s i?))))", n.S, nw.S, old.S, old.S), "Bool"))
}

func litSlice(l *Term) (bool, int64) {
	var n int64
	if _, err := fmt.Sscanf(l.S, "%d", &n); err == nil && fmt.Sprint(n) == l.S {
		return true, n
	}
	return false, 0
}

func constStr(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}
