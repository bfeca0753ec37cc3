package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (P *Program) modGet(n string) (map[string]Sort, bool) {
	P.mmu.Lock()
	defer P.mmu.Unlock()
	m, ok := P.modMemo[n]
	return m, ok
}
func (P *Program) modPut(n string, m map[string]Sort) {
	P.mmu.Lock()
	defer P.mmu.Unlock()
	P.modMemo[n] = m
}

// rootArgs makes symbolic parameters for fn.
func (vc *VC) rootArgs(fn *ssa.Function) []Val {
	var out []Val
	for i, p := range fn.Params {
		t := vc.fresh("arg_"+p.Name(), vc.st.S(p.Type()))
		vc.assumeType(tTrue, t, p.Type(), vc.preState)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				vc.assume(tTrue, tm(fmt.Sprintf("(> %s 0)", t.S), "Bool"))
			}
		}
		out = append(out, t)
	}
	return out
}

func (vc *VC) rootCtx(st *State) *specCtx {
	return &specCtx{vc: vc, st: st, old: vc.preState, env: vc.rootEnv, oenv: vc.rootEnv, recs: vc.rootRecs}
}

type FnReport struct {
	Name        string         `json:"function"`
	Status      string         `json:"status"` // proved, failed, unsupported, missing
	Reason      string         `json:"reason,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	InvChecks   int            `json:"invariant_obligations"`
	Invariants  []string       `json:"invariants,omitempty"`
	Failed      []FailedObl    `json:"failed,omitempty"`
	Dropped     []string       `json:"dropped_invariants,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Uses        []string       `json:"uses_contracts,omitempty"`
	Externs     []string       `json:"havoced_externals,omitempty"`
	Models      []string       `json:"modelled_externals,omitempty"`
	Axioms      []string       `json:"axioms,omitempty"`
	Notes       []string       `json:"notes,omitempty"`
	Solvers     map[string]int `json:"solvers"`
	SolverMS    int64          `json:"solver_ms"`
	WallMS      int64          `json:"wall_ms"`
	Attempt     int            `json:"attempt"`
	Names       []string       `json:"obligation_names,omitempty"`
}

type FailedObl struct {
	Name   string `json:"name"`
	Desc   string `json:"desc"`
	Status string `json:"solver_status"`
	Solver string `json:"solver"`
	Output string `json:"output,omitempty"`
}

func (P *Program) VerifyContract(ct *Contract, prop string, oblMS int) *FnReport {
	var last *FnReport
	for attempt := 1; attempt <= maxAttempt; attempt++ {
		r := P.verifyOnce(ct, prop, oblMS, attempt)
		r.Attempt = attempt
		if r.Status == "proved" || r.Status == "missing" || r.Status == "unsupported" {
			return r
		}
		last = r
		if debug {
			fmt.Printf("   attempt %d failed after %dms: %v\n", attempt, r.WallMS, r.Failed)
		}
		if len(ct.invs) == 0 || P.expired() {
			break
		}
	}
	return last
}

func (P *Program) verifyOnce(ct *Contract, prop string, oblMS, attempt int) (rep *FnReport) {
	t0 := time.Now()
	rep = &FnReport{Name: ct.name}
	fn := P.lookupFunc(ct.name)
	if fn == nil {
		rep.Status = "missing"
		rep.Reason = "function not found in the current source"
		return rep
	}
	vc := P.newVC(ct, fn, prop)
	vc.attempt = attempt
	defer func() {
		rep.WallMS = time.Since(t0).Milliseconds()
		rep.Inlined = sortedKeys(vc.inlined)
		rep.Uses = sortedKeys(vc.useLog)
		rep.Externs = sortedKeys(vc.externs)
		rep.Models = sortedKeys(vc.models)
		rep.Axioms = vc.axioms
		rep.Notes = sortedKeys(vc.notes)
		rep.Dropped = vc.dropped
		rep.Solvers = vc.solverN
		rep.SolverMS = vc.solveMS
		rep.Invariants = vc.loopLog
		rep.InvChecks = vc.invDone
		if r := recover(); r != nil {
			if u, ok := r.(*unsupportedErr); ok {
				rep.Status = "unsupported"
				rep.Reason = u.msg
				return
			}
			if debug {
				panic(r)
			}
			rep.Status = "unsupported"
			rep.Reason = fmt.Sprintf("internal: %v", r)
		}
	}()
	if len(ct.params) != len(fn.Params) {
		panic(unsupported("%s has %d parameters, its contract names %d", ct.name, len(fn.Params), len(ct.params)))
	}
	for _, t := range ct.nopanic {
		if t == "*" || t == prop || prop == "" {
			vc.nopanic = true
		}
	}
	vc.checkAliasDiscipline(fn)
	args := vc.rootArgs(fn)
	vc.rootEnv = map[string]SpecVal{}
	for i, p := range ct.params {
		vc.rootEnv[p] = SpecVal{t: args[i].(*Term), typ: fn.Params[i].Type()}
	}
	vc.needAxioms()
	pre := vc.rootCtx(vc.preState)
	vc.rootRecs = vc.instRecs(ct, pre)
	pre.recs = vc.rootRecs
	for _, r := range ct.requires {
		if !vc.tagActive(r.tags) {
			continue
		}
		vc.assume(tTrue, pre.bool(r.n))
	}
	for _, m := range ct.made {
		so, _ := vc.specSort("[]" + m[1])
		vc.compSort["A."+m[0]] = so
		vc.assume(tTrue, eq(vc.st.slen(vc.get(vc.preState, "A."+m[0], so)), intT(0)))
	}
	st := &State{m: map[string]*Term{}}
	vals, fs, g := vc.callBody(fn, args, nil, st, tTrue, nil)
	if len(vals) > 0 || fn.Signature.Results().Len() == 0 {
		env := cloneEnv(vc.rootEnv)
		for i, rn := range ct.results {
			if i < len(vals) {
				env[rn] = SpecVal{t: vc.term(fs, vals[i]), typ: fn.Signature.Results().At(i).Type()}
			}
		}
		post := &specCtx{vc: vc, st: fs, old: vc.preState, env: env, oenv: env, recs: vc.rootRecs}
		for _, c := range ct.sets {
			so, _ := vc.specSort(vc.P.Spec.ghosts[c.label])
			v := post.eval(c.n).t
			x := vc.fresh("set_"+c.label, so)
			vc.assume(tTrue, eq(x, v))
			vc.compSort["G."+c.label] = so
			fs.m["G."+c.label] = x
		}
		for _, h := range ct.asserts {
			if !vc.tagActive(h.tags) {
				continue
			}
			t := post.bool(h.n)
			vc.oblig(ct.name+": assert "+h.label, h.src, g, t)
			vc.assume(g, t)
		}
		for _, e := range ct.ensures {
			if !vc.tagActive(e.tags) {
				continue
			}
			for _, part := range conjuncts(e.n) {
				n := len(vc.obls)
				vc.oblig(ct.name+": ensures "+e.label, e.src, g, post.bool(part))
				if len(vc.obls) > n {
					vc.obls[n].using = e.using
				}
			}
		}
		if ct.frame {
			for _, k := range sortedStateKeys(fs) {
				if fr := vc.frameFact(k, vc.preState, fs, vc.alloc0, ct); fr != nil {
					vc.oblig(ct.name+": frame "+k, "objects existing at entry keep "+k, g, fr)
				}
			}
		}
	}
	// vacuity: the function's exit must be reachable under the assumptions
	vac := &Obl{Name: ct.name + ": vacuity", prefix: len(vc.items), goal: tFalse, guard: g, vac: true}
	vc.obls = append(vc.obls, vac)
	var wg sync.WaitGroup
	for _, o := range vc.obls {
		if o.goal.S == "true" {
			o.res = &SolveResult{Status: "unsat", Solver: "simplifier"}
			continue
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			ms := oblMS
			if ct.timeout > 0 {
				ms = ct.timeout
			}
			sc := vc.script(o.using, o.prefix, o.guard, o.goal, o.extra, false)
			if o.vac {
				k := "z3-ematch"
				if vc.st.strTheory {
					k = "z3"
				}
				o.res = runSolver(k, sc, 3000)
				return
			}
			o.res = vc.decide(sc, ms, 2)
			if dumpDir != "" && o.res.Status != "unsat" {
				dumpScript(o.Name, sc)
			}
		}(o)
	}
	wg.Wait()
	ok := true
	for _, o := range vc.obls {
		if o.vac {
			if o.res.Status == "unsat" {
				ok = false
				rep.Failed = append(rep.Failed, FailedObl{o.Name, "assumptions are contradictory: the proof would be vacuous", "unsat", o.res.Solver, ""})
			}
			continue
		}
		rep.Obligations++
		rep.Names = append(rep.Names, o.Name)
		if o.res.Status == "unsat" {
			rep.Discharged++
			vc.addSolver(o.res)
		} else {
			ok = false
			rep.Failed = append(rep.Failed, FailedObl{o.Name, o.Desc, o.res.Status, o.res.Solver, trunc(o.res.Out, 400)})
		}
	}
	if ok {
		rep.Status = "proved"
	} else {
		rep.Status = "failed"
	}
	return rep
}

func conjuncts(n *Node) []*Node {
	if n.k == "bin" && n.s == "&&" {
		return append(conjuncts(n.kids[0]), conjuncts(n.kids[1])...)
	}
	return []*Node{n}
}

func sortedStateKeys(s *State) []string {
	m := map[string]bool{}
	for k := range s.m {
		m[k] = true
	}
	return sortedKeys(m)
}

// checkAliasDiscipline rejects code shapes on which the value semantics given
// to slices could differ from Go's shared backing arrays.
func (vc *VC) checkAliasDiscipline(fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !inlinable(f) {
			return
		}
		seen[f] = true
		n := fname(f)
		if strings.HasPrefix(n, "lib.Stack") || strings.HasPrefix(n, "lib.anyHeap") || strings.HasPrefix(n, "github.com/samber/lo") || strings.HasPrefix(n, "container/heap") {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Slice:
					if _, ok := x.X.Type().Underlying().(*types.Slice); ok && (x.High != nil || x.Low != nil) && x.Referrers() != nil {
						for _, r := range *x.Referrers() {
							if !windowUseOK(x, r) {
								panic(unsupported("a window of a slice is kept or extended (shared backing array) at %s", vc.pos(in)))
							}
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if why := sharedAppend(f, x); why != "" {
							panic(unsupported("%s at %s", why, vc.pos(in)))
						}
					}
					if cf := x.Common().StaticCallee(); cf != nil {
						visit(cf)
					}
				case ssa.CallInstruction:
					if cf := x.Common().StaticCallee(); cf != nil {
						visit(cf)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
}

var maxAttempt = 3

func (P *Program) expired() bool {
	return !P.deadline.IsZero() && (time.Now().After(P.deadline) || solverDeadline != nil && solverDeadline())
}

// windowUseOK: a window x = s[lo:hi] may be read, passed on, or put back where s came from.
func windowUseOK(x *ssa.Slice, r ssa.Instruction) bool {
	switch u := r.(type) {
	case *ssa.DebugRef, *ssa.IndexAddr, *ssa.Range, *ssa.Index, *ssa.Return:
		return true
	case *ssa.Call:
		if bi, ok := u.Call.Value.(*ssa.Builtin); ok {
			return bi.Name() != "append" || u.Call.Args[0] != ssa.Value(x)
		}
		return true
	case *ssa.Store:
		// s.f = s.f[lo:hi]
		ld, ok := x.X.(*ssa.UnOp)
		if !ok {
			return false
		}
		if ld.X == u.Addr {
			return true
		}
		fa, ok1 := ld.X.(*ssa.FieldAddr)
		fb, ok2 := u.Addr.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
	case *ssa.Phi:
		return true
	}
	return false
}

// sharedAppend: two appends to one and the same slice value could write the
// same spare slot.
func sharedAppend(f *ssa.Function, c *ssa.Call) string {
	base := c.Call.Args[0]
	if k, ok := base.(*ssa.Const); ok && k.IsNil() {
		return ""
	}
	if base.Referrers() == nil {
		return ""
	}
	n := 0
	for _, r := range *base.Referrers() {
		o, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := o.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && o.Call.Args[0] == base {
			// only appends on the same path can collide
			if o == c || o.Block().Dominates(c.Block()) || c.Block().Dominates(o.Block()) {
				n++
			}
		}
	}
	if n > 1 {
		return "two appends to the same slice value"
	}
	for _, l := range findLoops(f) {
		if !l.body[c.Block()] {
			continue
		}
		switch d := base.(type) {
		case ssa.Instruction:
			if !l.body[d.Block()] {
				return "append in a loop to a slice value from outside it"
			}
		default:
			return "append in a loop to a slice value from outside it"
		}
	}
	return ""
}
