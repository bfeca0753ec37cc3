package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type scopeEnt struct {
	name string
	typ  types.Type
	phi  int // >=0: loop phi index
	val  Val // otherwise
	off  int // added to int phis for $i
	cnt  bool
	own  bool
	reg  string
}

type cand struct {
	label string
	src   string
	auto  bool
	f     func(st *State, phis []Val) *Term
	dead  bool
	why   string
	c     *Clause
}

// debugNames maps registers of fn to source identifiers.
func (vc *VC) debugNames(fn *ssa.Function) map[ssa.Value]string {
	vc.P.dbgMu.Lock()
	m0, ok := vc.P.dbg[fn]
	vc.P.dbgMu.Unlock()
	if ok {
		return m0
	}
	m := map[ssa.Value]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch d := in.(type) {
			case *ssa.DebugRef:
				if id, ok := d.Expr.(*ast.Ident); ok && !d.IsAddr {
					if _, dup := m[d.X]; !dup {
						m[d.X] = id.Name
					}
				}
			case *ssa.Phi:
				if d.Comment != "" {
					m[d] = d.Comment
				}
			}
		}
	}
	vc.P.dbgMu.Lock()
	vc.P.dbg[fn] = m
	vc.P.dbgMu.Unlock()
	return m
}

func (vc *VC) havocComp(st *State, key string, so Sort) *Term {
	t := vc.fresh(key, so)
	st.m[key] = t
	return t
}

func (vc *VC) havocKeys(st *State, keys []string) {
	// alloc first: type facts of the others refer to it
	for _, k := range keys {
		if k == "alloc" {
			old := vc.alloc(st)
			t := vc.havocComp(st, k, "Int")
			vc.assume(tTrue, app("Bool", ">=", t, old))
		}
	}
	for _, k := range keys {
		if k == "alloc" {
			continue
		}
		so := vc.compSort[k]
		if cur, ok := st.m[k]; ok {
			so = cur.Sort
		}
		t := vc.havocComp(st, k, so)
		if ct, ok := vc.compType[k]; ok {
			_ = ct
			for _, ax := range vc.closed(k, t, vc.alloc(st)) {
				vc.assume(tTrue, tm(ax, "Bool"))
			}
		}
		if ci, ok := vc.cellInfo[k]; ok {
			vc.assumeType(tTrue, t, ci.typ, st)
		} else if strings.HasPrefix(k, "c.sv.") {
			if ty, ok := vc.svType[k]; ok {
				vc.assumeType(tTrue, t, ty, st)
			} else if vc.st.isSlice(t.Sort) {
				vc.assume(tTrue, tm(fmt.Sprintf("(<= 0 %s)", vc.st.slen(t).S), "Bool"))
			}
		}
		if it, ok := vc.iterByPos[k]; ok {
			vc.assume(tTrue, tm(fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", t.S, t.S, it.n.S), "Bool"))
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type loopSnap struct {
	items, obls, rets, defers, loopLog int
}

func (vc *VC) snap(f *Frame) loopSnap {
	return loopSnap{len(vc.items), len(vc.obls), len(f.rets), len(f.defers), len(vc.loopLog)}
}
func (vc *VC) restore(f *Frame, s loopSnap) {
	vc.items = vc.items[:s.items]
	vc.obls = vc.obls[:s.obls]
	f.rets = f.rets[:s.rets]
	f.defers = f.defers[:s.defers]
	vc.loopLog = vc.loopLog[:s.loopLog]
}

func (vc *VC) runLoop(f *Frame, l *Loop, in map[*ssa.BasicBlock][]edge) {
	head := l.head
	if vc.bound {
		panic(unsupported("loop under a quantifier in %s", f.fn))
	}
	for b := range l.body {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				panic(unsupported("defer in a loop"))
			}
		}
	}
	es := in[head]
	in[head] = nil
	g0, st0, phis0 := vc.mergeEdges(f, head, es)
	if g0.S == "false" {
		return
	}
	ps := phisOf(head)
	phiTerm := make([]bool, len(ps))
	for k := range ps {
		switch x := phis0[k].(type) {
		case *Iface:
			phis0[k] = x.term
			phiTerm[k] = true
		case *Term:
			phiTerm[k] = true
		case *Closure, *Addr:
		default:
			_ = x
			phis0[k] = vc.term(st0, phis0[k])
			phiTerm[k] = true
		}
	}
	envSave := func() map[ssa.Value]Val {
		m := make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			m[k] = v
		}
		return m
	}
	baseEnv := envSave()
	mkHead := func(M map[string]bool) (*State, []Val) {
		st := st0.clone()
		vc.havocKeys(st, sortedKeys(M))
		vals := make([]Val, len(ps))
		for k, p := range ps {
			if !phiTerm[k] {
				vals[k] = phis0[k]
				continue
			}
			t0 := phis0[k].(*Term)
			t := vc.fresh("phi_"+p.Comment, t0.Sort)
			vc.assumeType(tTrue, t, p.Type(), st)
			vals[k] = t
		}
		return st, vals
	}
	runBody := func(st *State, vals []Val, g *Term) (back []edge, out map[*ssa.BasicBlock][]edge) {
		f.env = map[ssa.Value]Val{}
		for k, v := range baseEnv {
			f.env[k] = v
		}
		st = st.clone()
		for k, p := range ps {
			vc.bindVal(f, st, p, vals[k])
		}
		in2 := map[*ssa.BasicBlock][]edge{}
		vc.execBlock(f, head, st, g, in2)
		// run remaining blocks of the loop
		var order []*ssa.BasicBlock
		for _, b := range f.order {
			if l.body[b] && b != head {
				order = append(order, b)
			}
		}
		vc.runBlocks(f, order, l, in2)
		back = in2[head]
		delete(in2, head)
		for b := range in2 {
			if l.body[b] {
				delete(in2, b)
			}
		}
		return back, in2
	}
	// discovery of modified components
	M := map[string]bool{}
	sn := vc.snap(f)
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("loop analysis did not converge in %s", f.fn))
		}
		vc.quiet++
		vc.dry++
		hs, hv := mkHead(M)
		back, _ := runBody(hs, hv, g0)
		vc.quiet--
		vc.dry--
		changed := false
		for _, e := range back {
			for k, t := range e.st.m {
				if M[k] {
					continue
				}
				ht, ok := hs.m[k]
				if !ok {
					if strings.HasPrefix(k, "c.") {
						continue
					}
					if k == "alloc" {
						ht = vc.alloc0
					} else {
						ht = vc.compInit(k, t.Sort)
					}
				}
				if ht.S != t.S {
					M[k] = true
					changed = true
				}
			}
			for k := range ps {
				if !phiTerm[k] && !sameVal(e.phis[k], phis0[k]) {
					// fall back to a term
					phis0[k] = vc.term(st0, phis0[k])
					phiTerm[k] = true
					changed = true
				}
			}
		}
		vc.restore(f, sn)
		if !changed {
			break
		}
	}
	if vc.dry > 0 {
		hs, hv := mkHead(M)
		gh := vc.define("loop", g0)
		_, out := runBody(hs, hv, gh)
		for b, e := range out {
			in[b] = append(in[b], e...)
		}
		return
	}
	where := fmt.Sprintf("%s@%s", shortPath(f.fn.String()), vc.P.posStr(headPos(head)))
	cands := vc.candidates(f, l, st0, phis0, M, ps)
	memo := fmt.Sprintf("%s#%d:", f.path(), head.Index)
	defer func() {
		for _, c := range cands {
			if c.dead && !vc.keepDead {
				vc.deadCand[memo+c.label] = true
			}
		}
	}()
	// a candidate that mentions nothing the loop changes adds nothing
	sn = vc.snap(f)
	{
		hs, hv := mkHead(M)
		var keep []*cand
		for _, c := range cands {
			if vc.deadCand[memo+c.label] {
				continue
			}
			if !c.auto {
				a, ok := vc.tryEval(c, st0, phis0)
				if !ok {
					continue
				}
				b, ok := vc.tryEval(c, hs, hv)
				if !ok || qnorm(a.S) == qnorm(b.S) {
					continue
				}
			}
			keep = append(keep, c)
		}
		cands = keep
		vc.restore(f, sn)
	}
	// drop candidates that cannot be evaluated or fail initially
	alive := vc.filterInit(cands, st0, phis0, g0, where)
	for round := 0; ; round++ {
		hs, hv := mkHead(M)
		// reachability of the loop head is a fresh path condition
		gh := g0
		var evald []*cand
		for _, c := range alive {
			t, ok := vc.tryEval(c, hs, hv)
			if !ok {
				c.dead = true
				continue
			}
			n := len(vc.items)
			vc.assume(gh, t)
			if !c.auto && len(vc.items) == n+1 {
				vc.items[n] += " ;inv:" + c.c.label
			}
			evald = append(evald, c)
		}
		alive = evald
		back, out := runBody(hs, hv, gh)
		var drop map[*cand]string
		if len(back) > 0 && len(alive) > 0 {
			bg, bst, bphis := vc.mergeEdges(f, head, back)
			for k := range bphis {
				if phiTerm[k] {
					bphis[k] = vc.term(bst, bphis[k])
				}
			}
			drop = vc.houdini(alive, bst, bphis, bg, where)
		}
		if len(drop) == 0 {
			for b, e := range out {
				in[b] = append(in[b], e...)
			}
			for _, c := range alive {
				if !c.auto {
					vc.loopLog = append(vc.loopLog, fmt.Sprintf("%s: invariant %s", where, c.label))
				}
			}
			break
		}
		var keep []*cand
		for _, c := range alive {
			if w, bad := drop[c]; bad {
				c.dead, c.why = true, w
				if !c.auto {
					vc.dropped = append(vc.dropped, fmt.Sprintf("%s: %s not preserved (%s)", where, c.label, w))
				}
			} else {
				keep = append(keep, c)
			}
		}
		alive = keep
		vc.restore(f, sn)
		if round > 40 {
			panic(unsupported("invariant filtering did not converge"))
		}
	}
}

var qre = regexp.MustCompile(`\?\d+|\d+\?`)

// qnorm erases the numbering of bound variables.
func qnorm(s string) string { return qre.ReplaceAllString(s, "?") }

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos() != token.NoPos {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (P *Program) posStr(p token.Pos) string {
	x := P.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, P.Repo+"/"), x.Line)
}

func (vc *VC) tryEval(c *cand, st *State, phis []Val) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(*unsupportedErr); is {
				c.why = u.msg
				if debug {
					fmt.Println("cand", c.label, "not evaluable:", u.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	return c.f(st, phis), true
}

func (vc *VC) filterInit(cands []*cand, st *State, phis []Val, g *Term, where string) []*cand {
	type job struct {
		c *cand
		t *Term
		r *SolveResult
	}
	var jobs []*job
	for _, c := range cands {
		t, ok := vc.tryEval(c, st, phis)
		if !ok {
			continue
		}
		jobs = append(jobs, &job{c: c, t: t})
	}
	var wg sync.WaitGroup
	pfx := len(vc.items)
	for _, j := range jobs {
		if implies(g, j.t).S == "true" {
			j.r = &SolveResult{Status: "unsat", Solver: "simplifier"}
			continue
		}
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			j.r = vc.queryUsing(candUsing(j.c), pfx, g, j.t, vc.houdiniMS(j.c), candMode(j.c, vc))
		}(j)
	}
	wg.Wait()
	vc.candStats(where, "init", func(yield func(*cand, *SolveResult)) {
		for _, j := range jobs {
			yield(j.c, j.r)
		}
	})
	var out []*cand
	for _, j := range jobs {
		if j.r.Status == "unsat" {
			out = append(out, j.c)
			if !j.c.auto {
				vc.noteInv(where, "init", j.c, j.r)
			}
			continue
		}
		j.c.dead = true
		if !j.c.auto {
			vc.dropped = append(vc.dropped, fmt.Sprintf("%s: %s does not hold on entry (%s)", where, j.c.label, j.r.Status))
		}
	}
	return out
}

func candUsing(c *cand) []string {
	if c.c == nil {
		return nil
	}
	return c.c.using
}

func candMode(c *cand, vc *VC) int {
	switch {
	case c.auto:
		return 0
	case vc.attempt == 2:
		return 2
	}
	return 1
}

func (vc *VC) houdiniMS(c *cand) int {
	if c.auto {
		return 700
	}
	if vc.attempt == 2 {
		return vc.invMS
	}
	return vc.invMS / 2
}

func (vc *VC) noteInv(where, what string, c *cand, r *SolveResult) {
	vc.invDone++
	vc.addSolver(r)
}

func (vc *VC) houdini(alive []*cand, st *State, phis []Val, g *Term, where string) map[*cand]string {
	type job struct {
		c *cand
		t *Term
		r *SolveResult
	}
	var jobs []*job
	drop := map[*cand]string{}
	for _, c := range alive {
		t, ok := vc.tryEval(c, st, phis)
		if !ok {
			drop[c] = "not evaluable: " + c.why
			continue
		}
		jobs = append(jobs, &job{c: c, t: t})
	}
	var wg sync.WaitGroup
	pfx := len(vc.items)
	for _, j := range jobs {
		if implies(g, j.t).S == "true" {
			j.r = &SolveResult{Status: "unsat", Solver: "simplifier"}
			continue
		}
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			j.r = vc.queryUsing(candUsing(j.c), pfx, g, j.t, vc.houdiniMS(j.c), candMode(j.c, vc))
		}(j)
	}
	wg.Wait()
	vc.candStats(where, "step", func(yield func(*cand, *SolveResult)) {
		for _, j := range jobs {
			yield(j.c, j.r)
		}
	})
	for _, j := range jobs {
		if j.r.Status != "unsat" {
			drop[j.c] = j.r.Status
			if dl := os.Getenv("GOVC_DUMPCAND"); dl != "" && strings.HasPrefix(j.c.label, dl) {
				os.WriteFile(fmt.Sprintf("/tmp/cand_%s_%d_%s.smt2", dl, vc.n, mangle(j.c.label)), []byte(vc.script(candUsing(j.c), pfx, g, j.t, nil, false)+"; "+where+" "+j.c.label+"\n"), 0o644)
			}
		}
	}
	if len(drop) == 0 {
		for _, j := range jobs {
			if !j.c.auto {
				vc.noteInv(where, "step", j.c, j.r)
			}
		}
	}
	return drop
}

// ---- candidate generation ----

func (vc *VC) scope(f *Frame, l *Loop, M map[string]bool, phis0 []Val, ps []*ssa.Phi) []scopeEnt {
	var out []scopeEnt
	dn := vc.debugNames(f.fn)
	for k, p := range ps {
		t, ok := phis0[k].(*Term)
		if !ok {
			continue
		}
		out = append(out, scopeEnt{name: p.Comment, typ: p.Type(), phi: k, own: true})
		if t.Sort == "Int" {
			if b, isB := p.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
				if t.S == "(- 1)" {
					out = append(out, scopeEnt{name: "$i", phi: k, off: 1, cnt: true, own: true})
				} else {
					out = append(out, scopeEnt{name: "$i", phi: k, off: 0, cnt: true, own: true})
				}
			}
		}
	}
	for _, k := range sortedKeys(M) {
		if it, ok := vc.iterByPos[k]; ok {
			_ = it
			out = append(out, scopeEnt{name: "$i", phi: -1, val: &Addr{cell: k}, cnt: true, own: true})
		}
	}
	add := func(fr *Frame, own bool) {
		names := dn
		if fr != f {
			names = vc.debugNames(fr.fn)
		}
		type kv struct {
			v ssa.Value
			x Val
		}
		var list []kv
		for v, x := range fr.env {
			list = append(list, kv{v, x})
		}
		sort.Slice(list, func(i, j int) bool { return list[i].v.Name() < list[j].v.Name() })
		for _, e := range list {
			v, x := e.v, e.x
			if p, isPhi := v.(*ssa.Phi); isPhi && fr == f && p.Block() == l.head {
				continue
			}
			if fr == f {
				if ins, ok := v.(ssa.Instruction); ok && l.body[ins.Block()] {
					continue // defined inside the loop
				}
			}
			name := names[v]
			switch y := x.(type) {
			case *Addr:
				if y.cell != "" && len(y.path) == 0 {
					ci := vc.cellInfo[y.cell]
					if ci.typ != nil {
						out = append(out, scopeEnt{name: ci.name, typ: ci.typ, phi: -1, val: y, own: own, reg: v.Name()})
					}
				}
			case *Term, *SliceVar, *Iface:
				if pr, ok := v.(*ssa.Parameter); ok {
					name = pr.Name()
				}
				out = append(out, scopeEnt{name: name, typ: v.Type(), phi: -1, val: x, own: own, reg: v.Name()})
			}
		}
	}
	add(f, true)
	for p := f.parent; p != nil; p = p.parent {
		add(p, false)
	}
	return out
}

func (vc *VC) getEnt(e scopeEnt, st *State, phis []Val) SpecVal {
	if e.phi >= 0 {
		t := vc.term(st, phis[e.phi])
		if e.cnt {
			if e.off != 0 {
				t = app("Int", "+", t, intT(int64(e.off)))
			}
			return SpecVal{t: t, typ: intTy()}
		}
		return SpecVal{t: t, typ: e.typ}
	}
	if e.cnt {
		return SpecVal{v: e.val, typ: intTy()}
	}
	return SpecVal{v: e.val, typ: e.typ}
}

func (vc *VC) candidates(f *Frame, l *Loop, st0 *State, phis0 []Val, M map[string]bool, ps []*ssa.Phi) []*cand {
	var out []*cand
	sc := vc.scope(f, l, M, phis0, ps)
	// automatic: integer phi bounds
	for k, p := range ps {
		t0, ok := phis0[k].(*Term)
		if !ok || t0.Sort != "Int" {
			continue
		}
		b, isB := p.Type().Underlying().(*types.Basic)
		if !isB || b.Info()&types.IsInteger == 0 {
			continue
		}
		k := k
		out = append(out, &cand{label: "lower", auto: true, f: func(st *State, phis []Val) *Term {
			return app("Bool", ">=", vc.term(st, phis[k]), t0)
		}})
		out = append(out, &cand{label: "upper0", auto: true, f: func(st *State, phis []Val) *Term {
			return app("Bool", "<=", vc.term(st, phis[k]), t0)
		}})
		for blk := range l.body {
			for _, in := range blk.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				var other ssa.Value
				mine := func(v ssa.Value) bool {
					if v == ssa.Value(p) {
						return true
					}
					if b2, ok := v.(*ssa.BinOp); ok && b2.X == ssa.Value(p) {
						if _, ok := b2.Y.(*ssa.Const); ok {
							return true
						}
					}
					return false
				}
				if mine(bo.X) {
					other = bo.Y
				} else if mine(bo.Y) {
					other = bo.X
				} else {
					continue
				}
				get := func(st *State) (*Term, bool) {
					if c, ok := other.(*ssa.Const); ok {
						if t, ok := vc.constVal(c).(*Term); ok && t.Sort == "Int" {
							return t, true
						}
						return nil, false
					}
					if ins, ok := other.(ssa.Instruction); ok && l.body[ins.Block()] {
						// len(x) of a loop-invariant slice computed inside the loop
						if c, ok := other.(*ssa.Call); ok {
							if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								if v, ok := f.env[c.Call.Args[0]]; ok {
									if _, isS := c.Call.Args[0].Type().Underlying().(*types.Slice); isS {
										return vc.st.slen(vc.term(st, v)), true
									}
								}
							}
						}
						return nil, false
					}
					v, ok := f.env[other]
					if !ok {
						return nil, false
					}
					t, ok := v.(*Term)
					return t, ok && t.Sort == "Int"
				}
				if _, ok := get(st0); !ok {
					continue
				}
				for _, op := range []string{"<", "<=", ">="} {
					op := op
					out = append(out, &cand{label: "bound", auto: true, f: func(st *State, phis []Val) *Term {
						t, _ := get(st)
						if t == nil {
							panic(unsupported("bound"))
						}
						return app("Bool", op, vc.term(st, phis[k]), t)
					}})
				}
			}
		}
	}
	// automatic: slices updated in place keep their length
	for _, key := range sortedKeys(M) {
		key := key
		if !strings.HasPrefix(key, "c.") {
			continue
		}
		base, ok := st0.m[key]
		if !ok || !vc.st.isSlice(base.Sort) {
			continue
		}
		out = append(out, &cand{label: "len " + key, auto: true, f: func(st *State, phis []Val) *Term {
			return eq(vc.st.slen(vc.get(st, key, base.Sort)), vc.st.slen(base))
		}})
	}
	// automatic: frame of modified heap components
	allocE := vc.alloc(st0)
	lean := false
	for _, p := range vc.root.lean {
		lean = lean || p == vc.prop
	}
	for _, key := range sortedKeys(M) {
		key := key
		if lean || !(strings.HasPrefix(key, "H.") || strings.HasPrefix(key, "P.") || strings.HasPrefix(key, "M.")) {
			continue
		}
		base := vc.get(st0, key, vc.compSort[key])
		mk := func(label string, bound *Term, base *Term, except func(st *State, phis []Val) []*Term) *cand {
			return &cand{label: label, auto: true, f: func(st *State, phis []Val) *Term {
				cur := vc.get(st, key, base.Sort)
				if cur.S == base.S {
					return tTrue
				}
				ex := ""
				if except != nil {
					for _, e := range except(st, phis) {
						ex += fmt.Sprintf(" (not (= r? %s))", e.S)
					}
				}
				return tm(fmt.Sprintf("(forall ((r? Int)) (! (=> (and (<= r? %s)%s) (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", bound.S, ex, cur.S, base.S, cur.S), "Bool")
			}}
		}
		out = append(out, mk("frame-entry "+key, allocE, base, nil))
		init := vc.compInit(key, base.Sort)
		if vc.alloc0.S != allocE.S {
			out = append(out, mk("frame-fn "+key, vc.alloc0, init, nil))
		}
		// except one object
		n := 0
		for _, e := range sc {
			if e.typ == nil || e.phi >= 0 {
				continue
			}
			owner := ownsComp(e.typ, key)
			if !owner {
				continue
			}
			e := e
			n++
			if n > 6 {
				break
			}
			out = append(out, mk("frame-except "+key+" "+e.name, allocE, base, func(st *State, phis []Val) []*Term {
				v := vc.getEnt(e, st0, phis0)
				ctx := &specCtx{vc: vc, st: st0, env: map[string]SpecVal{"x": v}}
				sv, _ := ctx.lookup("x")
				return []*Term{sv.t}
			}))
		}
	}
	// contract pool
	var pool []*Clause
	if vc.root != nil {
		for _, c := range vc.root.invs {
			if vc.tagActive(c.tags) {
				pool = append(pool, c)
			}
		}
	}
	fn := fname(f.fn)
	for k, cs := range vc.P.Spec.pools {
		if strings.HasSuffix(fn, k) {
			pool = append(pool, cs...)
		}
	}
	for _, c := range pool {
		if c.loop != "" && vc.attempt < 3 && !strings.Contains(fn, c.loop) {
			continue
		}
		out = append(out, vc.bindClause(c, sc, st0, phis0, f)...)
	}
	return out
}

func ownsComp(t types.Type, key string) bool {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return strings.HasPrefix(key, "H."+typeKey(p.Elem())+".")
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		return strings.HasPrefix(key, "M.")
	}
	return false
}

func sameType(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	return typeKey(a) == typeKey(b)
}

func (vc *VC) bindClause(c *Clause, sc []scopeEnt, st0 *State, phis0 []Val, f *Frame) []*cand {
	opts := make([][]scopeEnt, len(c.vars))
	for i, v := range c.vars {
		var named, own, all []scopeEnt
		seen := map[string]bool{}
		for _, e := range sc {
			if v.typ == "$i" {
				if !e.cnt {
					continue
				}
			} else {
				if e.cnt || e.typ == nil {
					continue
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, is := r.(*unsupportedErr); !is {
								panic(r)
							}
							e.typ = nil
						}
					}()
					_, ty := vc.specSort(v.typ)
					if ty == nil || !sameType(ty, e.typ) {
						e.typ = nil
					}
				}()
				if e.typ == nil {
					continue
				}
			}
			id := entID(e)
			if seen[id] {
				continue
			}
			seen[id] = true
			if e.name == "" && vc.attempt < 3 && !strings.HasPrefix(v.name, "_") {
				continue
			}
			if e.name == v.name {
				named = append(named, e)
			}
			if e.own {
				own = append(own, e)
			}
			all = append(all, e)
		}
		if hasPhi := func() bool {
			for _, e := range named {
				if e.phi >= 0 {
					return true
				}
			}
			return false
		}(); hasPhi {
			var ph []scopeEnt
			for _, e := range named {
				if e.phi >= 0 {
					ph = append(ph, e)
				}
			}
			named = ph
		}
		switch {
		case vc.attempt <= 2 && len(named) > 0 && v.typ != "$i":
			opts[i] = named
		case vc.attempt <= 2 && len(own) > 0:
			opts[i] = own
		default:
			opts[i] = all
		}
		if len(opts[i]) == 0 {
			return nil
		}
	}
	var out []*cand
	idx := make([]int, len(c.vars))
	for {
		bind := make([]scopeEnt, len(c.vars))
		for i := range idx {
			bind[i] = opts[i][idx[i]]
		}
		lab := c.label
		if len(bind) > 0 {
			var ns []string
			for i, b := range bind {
				ns = append(ns, c.vars[i].name+"="+entLabel(b))
			}
			lab += "(" + strings.Join(ns, ",") + ")"
		}
		out = append(out, &cand{label: lab, src: c.src, c: c, f: func(st *State, phis []Val) *Term {
			ctx := vc.rootCtx(st)
			ctx.env = cloneEnv(ctx.env)
			ctx.entry = st0
			ctx.eenv = cloneEnv(ctx.env)
			if ctx.oenv != nil {
				ctx.oenv = cloneEnv(ctx.oenv)
			}
			for i, b := range bind {
				ctx.env[c.vars[i].name] = vc.getEnt(b, st, phis)
				ctx.eenv[c.vars[i].name] = vc.getEnt(b, st0, phis0)
				if ctx.oenv != nil {
					// inside old(), loop variables keep their current value
					sv, _ := (&specCtx{vc: vc, st: st, env: map[string]SpecVal{"x": vc.getEnt(b, st, phis)}}).lookup("x")
					sv.v = nil
					ctx.oenv[c.vars[i].name] = sv
				}
				if b.cnt && b.phi < 0 {
					if a, ok := b.val.(*Addr); ok {
						if it, ok := vc.iterByPos[a.cell]; ok {
							ctx.env["$keys"] = SpecVal{t: it.keys}
							ctx.env["$n"] = SpecVal{t: it.n, typ: intTy()}
							if ctx.oenv != nil {
								ctx.oenv["$keys"] = SpecVal{t: it.keys}
							}
						}
					}
				}
			}
			return ctx.bool(c.n)
		}})
		if len(out) > 150 {
			break
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			break
		}
	}
	return out
}

func cloneEnv(m map[string]SpecVal) map[string]SpecVal {
	n := make(map[string]SpecVal, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func entLabel(e scopeEnt) string {
	if e.phi >= 0 {
		return fmt.Sprintf("phi%d:%s+%d", e.phi, e.name, e.off)
	}
	if e.cnt {
		return "$i"
	}
	return e.name + ":" + e.reg
}

func (f *Frame) path() string {
	s := ""
	for p := f; p != nil; p = p.parent {
		s += fmt.Sprintf("/%p@%p", p.fn, p.site)
	}
	return s
}

func entID(e scopeEnt) string {
	if e.phi >= 0 {
		return fmt.Sprintf("phi%d:%s+%d", e.phi, e.name, e.off)
	}
	switch x := e.val.(type) {
	case *Addr:
		return "cell:" + x.cell
	case *Term:
		return e.name + ":" + x.S
	case *SliceVar:
		return e.name + ":" + x.cell
	case *Iface:
		return e.name + ":" + x.term.S
	}
	return e.name
}

func (vc *VC) candStats(where, what string, each func(func(*cand, *SolveResult))) {
	if os.Getenv("GOVC_STATS") == "" {
		return
	}
	each(func(c *cand, r *SolveResult) {
		fmt.Printf("STAT %s %s %s %s %dms %s\n", where[strings.LastIndex(where, "/")+1:], what, c.label, r.Status, r.MS, r.Solver)
	})
}
