package main

import (
	"slices"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SolveResult struct {
	Status string // unsat sat unknown error
	Solver string
	MS     int64
	Out    string
	Limit  int
}

var sem = make(chan struct{}, 8)

type solverCfg struct {
	name string
	cmd  []string
}

func solverCmd(kind string, ms int) []string {
	switch kind {
	case "z3-ematch":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false"}
	case "z3-auto":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false"}
	case "z3-rel0":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false", "smt.relevancy=0"}
	case "z3":
		return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)}
	case "z3-old":
		return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false"}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", "--quiet", fmt.Sprintf("--tlimit=%d", ms)}
	case "cvc5-str":
		return []string{"cvc5", "--lang=smt2", "--quiet", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms)}
	}
	panic(kind)
}

var dumpN int64
var queryCount int64

var resCache sync.Map
var solverDeadline func() bool

func runSolver(kind, script string, ms int) *SolveResult {
	return runSolverCtx(context.Background(), kind, script, ms)
}

// race runs the kinds side by side and stops the others at the first proof.
func race(kinds []string, script string, ms int) *SolveResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan *SolveResult, len(kinds))
	for _, k := range kinds {
		go func(k string) { ch <- runSolverCtx(ctx, k, script, ms) }(k)
	}
	var first *SolveResult
	for range kinds {
		r := <-ch
		if r.Status == "unsat" || r.Status == "error" {
			return r
		}
		if first == nil || r.Status == "sat" {
			first = r
		}
	}
	return first
}

func runSolverCtx(parent context.Context, kind, script string, ms int) *SolveResult {
	h := sha256.Sum256([]byte(kind + script))
	key := string(h[:])
	if c, ok := resCache.Load(key); ok {
		if r := c.(*SolveResult); r.Status != "unknown" || r.Limit >= ms {
			return r
		}
	}
	if solverDeadline != nil && solverDeadline() {
		return &SolveResult{Status: "unknown", Solver: kind, Out: "time budget exhausted"}
	}
	sem <- struct{}{}
	if parent.Err() != nil {
		<-sem
		return &SolveResult{Status: "unknown", Solver: kind, Out: "cancelled"}
	}
	defer func() { <-sem }()
	atomic.AddInt64(&queryCount, 1)
	c := solverCmd(kind, ms)
	ctx, cancel := context.WithTimeout(parent, time.Duration(ms+4000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, c[0], c[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	r := &SolveResult{Solver: kind, MS: time.Since(t0).Milliseconds(), Out: out.String(), Limit: ms}
	r.Status = "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			r.Status = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			r.Status = "error"
			break
		}
	}
	if r.Status == "timeout" {
		r.Status = "unknown"
	}
	if r.Status == "error" && os.Getenv("GOVC_DUMP") != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(filepath.Join(os.Getenv("GOVC_DUMP"), fmt.Sprintf("err%d.smt2", n)), []byte(script+"\n; "+out.String()), 0o644)
	}
	if r.Status != "unknown" || ms > 0 && parent.Err() == nil {
		resCache.Store(key, r)
	}
	return r
}

// script renders the problem "prefix and guard and not goal".
func (vc *VC) script(using []string, prefix int, guard, goal *Term, extra []string, forCvc bool) string {
	var b strings.Builder
	if forCvc {
		b.WriteString("(set-logic ALL)\n")
	}
	if vc.st.strTheory && !forCvc {
		// z3 handles the sequence theory natively
	}
	b.WriteString(vc.st.decls())
	for _, p := range vc.pre {
		b.WriteString(p)
		b.WriteByte('\n')
	}
	for _, p := range vc.items[:prefix] {
		if using != nil {
			if k := strings.Index(p, " ;inv:"); k >= 0 && !slices.Contains(using, p[k+6:]) {
				continue // fewer assumptions: weaker, still sound
			}
		}
		b.WriteString(p)
		b.WriteByte('\n')
	}
	for _, p := range extra {
		b.WriteString("(assert " + p + ")\n")
	}
	if guard.S != "true" {
		b.WriteString("(assert " + guard.S + ")\n")
	}
	b.WriteString("(assert (not " + goal.S + "))\n(check-sat)\n")
	return b.String()
}

func (vc *VC) addSolver(r *SolveResult) {
	vc.mu.Lock()
	vc.solverN[r.Solver]++
	vc.solveMS += r.MS
	vc.mu.Unlock()
}

// query decides guard => goal under the first prefix items.
func (vc *VC) query(prefix int, guard, goal *Term, ms int, mode int) *SolveResult {
	return vc.queryUsing(nil, prefix, guard, goal, ms, mode)
}

func (vc *VC) queryUsing(using []string, prefix int, guard, goal *Term, ms int, mode int) *SolveResult {
	r := vc.decide(vc.script(using, prefix, guard, goal, nil, false), ms, mode)
	if r.Status == "unsat" || r.Status == "error" || mode == 0 {
		return r
	}
	// case split over the paths that meet here
	ds := disjuncts(guard.S)
	if len(ds) < 2 || len(ds) > 8 {
		return r
	}
	var last *SolveResult
	ms0 := r.MS
	for _, d := range ds {
		last = vc.decide(vc.script(using, prefix, tm(d, "Bool"), goal, nil, false), ms, mode)
		ms0 += last.MS
		if last.Status != "unsat" {
			return r
		}
	}
	return &SolveResult{Status: "unsat", Solver: last.Solver, MS: ms0}
}

// disjuncts splits "(or a b c)" into its arguments.
func disjuncts(s string) []string {
	if !strings.HasPrefix(s, "(or ") {
		return nil
	}
	s = s[4 : len(s)-1]
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if i > st {
					out = append(out, s[st:i])
				}
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func (vc *VC) decide(script string, ms int, mode int) *SolveResult {
	if vc.st.strTheory {
		first := min(ms, 4000)
		r := runSolver("z3", script, first)
		if r.Status == "unsat" || r.Status == "sat" || mode == 0 {
			return r
		}
		cs := "(set-logic ALL)\n" + script
		var best *SolveResult
		var wg sync.WaitGroup
		rs := make([]*SolveResult, 3)
		for i, k := range []string{"cvc5-str", "z3", "z3-old"} {
			wg.Add(1)
			go func(i int, k string) {
				defer wg.Done()
				s := script
				if k == "cvc5-str" {
					s = cs
				}
				rs[i] = runSolver(k, s, ms)
			}(i, k)
		}
		wg.Wait()
		for _, x := range rs {
			if x.Status == "unsat" {
				return x
			}
			if x.Status == "sat" {
				best = x
			}
		}
		if best != nil {
			return best
		}
		return rs[0]
	}
	r := runSolver("z3-ematch", script, min(ms, 1000))
	if r.Status == "unsat" || r.Status == "error" {
		return r
	}
	if r2 := runSolver("z3-auto", script, min(ms, 1000)); r2.Status == "unsat" {
		return r2
	}
	if ms > 1000 {
		if r = race([]string{"z3-ematch", "z3-auto"}, script, min(ms, 8000)); r.Status == "unsat" {
			return r
		}
	}
	// cheap variations first: they answer in milliseconds when they answer
	if mode == 0 {
		return r
	}
	for _, k := range []string{"z3-old", "z3-rel0"} {
		lim := 1200
		if mode == 2 {
			lim = 3000
		}
		r2 := runSolver(k, script, min(ms, lim))
		if r2.Status == "unsat" {
			return r2
		}
	}
	if mode < 2 {
		return r
	}
	var wg sync.WaitGroup
	kinds := []string{"z3-old", "cvc5", "z3", "z3-rel0", "z3-auto"}
	rs := make([]*SolveResult, len(kinds))
	for i, k := range kinds {
		wg.Add(1)
		go func(i int, k string) {
			defer wg.Done()
			s := script
			if k == "cvc5" {
				s = "(set-logic ALL)\n" + script
			}
			rs[i] = runSolver(k, s, ms)
		}(i, k)
	}
	wg.Wait()
	for _, x := range rs {
		if x.Status == "unsat" {
			return x
		}
	}
	for _, x := range rs {
		if x.Status == "sat" {
			return x
		}
	}
	return r
}
