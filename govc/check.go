package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type harnessResult struct {
	Ran      bool     `json:"ran"`
	Built    bool     `json:"built"`
	Failed   []string `json:"failed,omitempty"`
	Tests    []string `json:"tests,omitempty"`
	Stats    []string `json:"stats,omitempty"`
	Known    []string `json:"-"`
	Cmd      string   `json:"cmd,omitempty"`
	Output   string   `json:"-"`
	WallS    float64  `json:"wall_s"`
	Packages []string `json:"packages,omitempty"`
	Unbuilt  []string `json:"unbuilt,omitempty"`
	Reason   string   `json:"reason,omitempty"`
}

var propsLine = regexp.MustCompile(`(?m)^// props:(.*)$`)

// runHarness executes the in-package executable contracts of one property
// against the current tree (go test -overlay).
func runHarness(repo, hdir, id, tier, seed string, factor int, limit time.Duration) *harnessResult {
	res := &harnessResult{}
	t0 := time.Now()
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	overlay := map[string]string{}
	pkgs := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(hdir, "*", "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		m := propsLine.FindSubmatch(b)
		if m == nil {
			continue
		}
		has, all := false, false
		for _, p := range strings.Fields(string(m[1])) {
			has = has || p == id
			all = all || p == "*"
		}
		if !has && !all {
			continue
		}
		pkg := strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "__", "/")
		overlay[filepath.Join(repo, pkg, "zz_verif_"+filepath.Base(f))] = f
		if has {
			pkgs["./"+pkg] = true
		}
	}
	if len(pkgs) == 0 {
		res.Reason = "no harness"
		return res
	}
	// helper files only for the packages that run
	for k := range overlay {
		rel, _ := filepath.Rel(repo, filepath.Dir(k))
		if !pkgs["./"+rel] && strings.HasSuffix(k, "_test.go") {
			delete(overlay, k)
		}
	}
	tmp, _ := os.MkdirTemp("", "verif")
	defer os.RemoveAll(tmp)
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	os.WriteFile(ov, b, 0o644)
	os.MkdirAll(filepath.Join(repo, "client/dist/assets"), 0o755)
	dummy := filepath.Join(repo, "client/dist/assets/.dummy")
	if _, err := os.Stat(dummy); err != nil {
		os.WriteFile(dummy, nil, 0o644)
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "TZ=UTC", "VERIF_TIER="+tier, "VERIF_SEED="+seed, "VERIF_FACTOR="+strconv.Itoa(factor), "TMPDIR="+tmp, "VERIF_KNOWN="+filepath.Join(filepath.Dir(hdir), "known-findings.txt"))
	targs := []string{"-test.run", "TestVerif_" + id + "_", "-test.v", "-test.count=1", "-test.timeout", fmt.Sprintf("%ds", int(limit.Seconds()))}
	res.Cmd = "go test -c -overlay OVERLAY -vet=off -o x.test PKG && ./x.test " + strings.Join(targs, " ")
	res.Packages = sortedKeys(pkgs)
	type pres struct {
		out   string
		built bool
		err   error
	}
	outs := make([]pres, len(res.Packages))
	var wg sync.WaitGroup
	for i, p := range res.Packages {
		wg.Add(1)
		go func(i int, p string) {
			defer wg.Done()
			wd := filepath.Join(tmp, fmt.Sprint("w", i))
			os.MkdirAll(wd, 0o755)
			bin := filepath.Join(tmp, fmt.Sprint("t", i, ".test"))
			cmd := exec.Command("go", "test", "-c", "-overlay", ov, "-vet=off", "-o", bin, p)
			cmd.Dir, cmd.Env = repo, env
			out, err := cmd.CombinedOutput()
			if err != nil {
				outs[i] = pres{out: string(out), err: err}
				return
			}
			cmd = exec.Command(bin, targs...)
			cmd.Dir, cmd.Env = wd, env
			out, err = cmd.CombinedOutput()
			outs[i] = pres{out: string(out), built: true, err: err}
		}(i, p)
	}
	wg.Wait()
	res.Ran = true
	for i, o := range outs {
		res.Output += "== " + res.Packages[i] + "\n" + o.out
		if !o.built {
			res.Unbuilt = append(res.Unbuilt, res.Packages[i])
			res.Reason += "the executable contract does not compile against this tree: " + trunc(o.out, 600) + "\n"
			continue
		}
		res.Built = true
		nf := len(res.Failed)
		sc := bufio.NewScanner(strings.NewReader(o.out))
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if i := strings.Index(l, "VERIF-STAT "); i >= 0 {
				res.Stats = append(res.Stats, l[i+11:])
			}
			if i := strings.Index(l, "VERIF-KNOWN "); i >= 0 {
				res.Known = append(res.Known, l[i+12:])
			}
			if strings.HasPrefix(l, "--- FAIL: ") {
				res.Failed = append(res.Failed, strings.Fields(l)[2])
			}
			if strings.HasPrefix(l, "--- PASS: ") {
				res.Tests = append(res.Tests, strings.Fields(l)[2])
			}
		}
		if o.err != nil && len(res.Failed) == nf {
			if strings.Contains(o.out, "panic:") || strings.Contains(o.out, "fatal error:") || strings.Contains(o.out, "test timed out") {
				res.Failed = append(res.Failed, "crash")
			} else {
				res.Reason += "harness run: " + o.err.Error() + " " + trunc(o.out, 600)
			}
		}
	}
	return res
}

// hardLimit is the time (ns) after which no solver is started.
var hardLimit atomic.Int64

type checkCfg struct {
	verif, repo, id, tier, seed string
	ms                          int
}

func runCheck(c checkCfg) int {
	t0 := time.Now()
	level := "proof"
	replayDir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, c.id+".txt")
	os.Remove(replay)
	var hres *harnessResult
	var hwg sync.WaitGroup
	factor, limit := 1, 240*time.Second
	budget := 330 * time.Second
	if c.tier == "thorough" {
		factor, limit = 10, 1500*time.Second
		budget = 1800 * time.Second
	}
	hwg.Add(1)
	go func() {
		defer hwg.Done()
		hres = runHarness(c.repo, filepath.Join(c.verif, "harness"), c.id, c.tier, c.seed, factor, limit)
		if len(hres.Failed) > 0 {
			// a concrete counterexample decides; leave the proof a little time to name the obligation
			dl := time.Now().Add(15 * time.Second)
			hardLimit.Store(dl.UnixNano())
		}
	}()
	var reps []*FnReport
	loadErr := ""
	P, err := LoadProgram(c.repo)
	if err == nil {
		if P.Spec, err = LoadSpec(filepath.Join(c.verif, "contracts")); err != nil {
			fmt.Println("contracts do not load:", err)
			os.Exit(3)
		}
		P.Spec.ForProp(c.id)
	}
	if err != nil {
		loadErr = err.Error()
	} else {
		P.deadline = time.Now().Add(budget)
		hardLimit.CompareAndSwap(0, time.Now().Add(budget+120*time.Second).UnixNano())
		solverDeadline = func() bool { return time.Now().UnixNano() > hardLimit.Load() }
		reps = P.verifyProp(c.id, c.ms)
		reps = append(reps, runLemmas(filepath.Join(c.verif, "lemmas"), c.id)...)
	}
	hwg.Wait()
	var failed []*FnReport
	var bounded []string
	obl, dis, inv := 0, 0, 0
	var solverMS int64
	backends := map[string]int{}
	set := map[string]map[string]bool{}
	add := func(k string, xs []string) {
		if set[k] == nil {
			set[k] = map[string]bool{}
		}
		for _, x := range xs {
			set[k][x] = true
		}
	}
	var fnames, oblNames []string
	for _, r := range reps {
		switch r.Status {
		case "failed":
			failed = append(failed, r)
		case "unsupported", "missing":
			bounded = append(bounded, r.Name+": "+r.Status+": "+r.Reason)
			continue
		}
		fnames = append(fnames, r.Name)
		obl += r.Obligations + r.InvChecks
		dis += r.Discharged + r.InvChecks
		inv += r.InvChecks
		solverMS += r.SolverMS
		for k, v := range r.Solvers {
			backends[k] += v
		}
		add("inlined", r.Inlined)
		add("uses", r.Uses)
		add("externs", r.Externs)
		add("models", r.Models)
		add("axioms", r.Axioms)
		add("notes", r.Notes)
		oblNames = append(oblNames, r.Names...)
	}
	for _, k := range hres.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
	}
	if len(failed) > 0 && hres.Built && len(hres.Failed) == 0 && c.tier != "thorough" {
		// the proof failed: search longer for a concrete failing input
		h2 := runHarness(c.repo, filepath.Join(c.verif, "harness"), c.id, c.tier, c.seed, 6, 300*time.Second)
		if len(h2.Failed) > 0 {
			hres = h2
		}
	}
	rc := 0
	viol := 0
	if len(hres.Failed) > 0 {
		rc, viol = 1, len(hres.Failed)
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: concrete counterexample on the real code\nreplay: cd %s && VERIF_SEED=%s %s\n(the overlay maps /verif/harness/<pkg>/x_test.go to <repo>/<pkg>/zz_verif_x_test.go)\n\n", c.id, c.repo, c.seed, hres.Cmd)
		for _, r := range failed {
			for _, f := range r.Failed {
				fmt.Fprintf(&b, "failed obligation: %s [%s, %s] %s\n", f.Name, f.Status, f.Solver, f.Desc)
			}
		}
		b.WriteString("\n" + trunc(hres.Output, 60000))
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	} else if len(failed) > 0 {
		rc = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: obligations no longer discharged; no failing input found\n\n", c.id)
		for _, r := range failed {
			fmt.Fprintf(&b, "function %s (attempt %d)\n", r.Name, r.Attempt)
			for _, f := range r.Failed {
				viol++
				fmt.Fprintf(&b, "  failed obligation: %s\n    clause: %s\n    %s: %s %s\n", f.Name, f.Desc, f.Solver, f.Status, f.Output)
			}
			for _, d := range r.Dropped {
				fmt.Fprintf(&b, "  invariant not established: %s\n", d)
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.id, replay)
	}
	lst := func(k string) []string { return sortedKeys(set[k]) }
	trusted := []string{
		"govc (condition generator over go/ssa in /verif/govc) and golang.org/x/tools/go/ssa",
		"z3 4.8.12, z3-new, cvc5 1.1.2",
	}
	for _, m := range lst("models") {
		trusted = append(trusted, "modelled external: "+m)
	}
	if P != nil && P.Spec != nil {
		for _, n := range lst("uses") {
			if ct := P.Spec.contracts[n]; ct != nil && (ct.iface || ct.trusted) {
				trusted = append(trusted, "assumed contract: "+n)
			} else if ct != nil && contains(ct.elsewhere, c.id) {
				trusted = append(trusted, "assumed contract: "+n+" (discharged in the check of "+strings.Join(ct.props, ", ")+")")
			}
		}
	}
	for _, m := range lst("axioms") {
		trusted = append(trusted, "axiom: "+m)
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "invariant_obligations": inv,
		"checker_cmd":              fmt.Sprintf("%s/check.sh %s %s", c.verif, c.id, c.tier),
		"trusted_base":             trusted,
		"functions_under_contract": fnames,
		"functions_inlined":        lst("inlined"),
		"contracts_used":           lst("uses"),
		"back_ends":                backends,
		"solver_ms":                solverMS,
		"obligation_names":         uniqStr(oblNames),
		"havoced_externals":        lst("externs"),
		"harness":                  hres,
	}
	declared := []string{}
	if P != nil && P.Spec != nil {
		for _, b := range P.Spec.bounded {
			if b[0] == c.id {
				declared = append(declared, b[1])
			}
		}
	}
	if len(declared) > 0 {
		cov["bounded_parts"] = declared
	}
	if len(bounded) > 0 {
		cov["bounded_standins"] = bounded
		cov["bounded_note"] = "these functions are outside the verifier's reach on this tree; the executable contract (harness) is the bounded stand-in and is not counted as proved"
	}
	if loadErr != "" {
		cov["load_error"] = loadErr
	}
	if obl == 0 || len(fnames) == 0 {
		level = "exploration"
		cov["evaluations"] = len(hres.Tests)
		cov["distinct_nontrivial"] = len(hres.Tests)
		cov["rule"] = "executable contract run on generated inputs; every contract of this property is outside the verifier's reach on this tree"
		cov["samples"] = hres.Stats
	}
	assumptions := []string{
		"partial correctness: termination is not proved",
		"signed machine integers are mathematical; unsigned arithmetic wraps as in Go",
		"slices have value semantics plus tracked in-place updates (alias discipline checked syntactically; the executable contracts exercise aliasing)",
		"float64 NaN excluded; float operations uninterpreted except order",
		"method receivers are non-nil; calls of unknown function values are pure functions of their arguments",
		"logging (zerolog) and error construction have no effect on program state",
		"no data races: the code under contract is single-threaded",
	}
	for _, n := range lst("notes") {
		assumptions = append(assumptions, n)
	}
	for _, e := range lst("externs") {
		assumptions = append(assumptions, "external "+e+": arbitrary result of its type, writes only through addresses it is given")
	}
	seed, _ := strconv.Atoi(c.seed)
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), b, 0o644)
	fmt.Printf("%s %s: %d functions, %d/%d obligations discharged, harness %s, %.1fs\n", c.id, c.tier, len(fnames), dis, obl, hstat(hres), time.Since(t0).Seconds())
	for _, x := range bounded {
		fmt.Println("  bounded:", trunc(x, 300))
	}
	for _, r := range reps {
		fmt.Printf("  %-70s %s %d/%d +%d inv, %d ms, attempt %d\n", r.Name, r.Status, r.Discharged, r.Obligations, r.InvChecks, r.WallMS, r.Attempt)
		for _, f := range r.Failed {
			fmt.Printf("     FAILED %s [%s]\n", f.Name, f.Status)
		}
	}
	if loadErr != "" {
		fmt.Println("  load error:", trunc(loadErr, 500))
	}
	if !hres.Built && hres.Reason != "" {
		fmt.Println("  harness:", trunc(hres.Reason, 500))
	}
	return rc
}

func hstat(h *harnessResult) string {
	if !h.Ran {
		return "none"
	}
	if !h.Built {
		return "unavailable"
	}
	return fmt.Sprintf("%d ok %d failed (%.1fs)", len(h.Tests), len(h.Failed), h.WallS)
}

func uniqStr(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return sortedKeys(m)
}

// verifyProp verifies every contract of the property and, transitively, every
// contract those proofs rely on.
func (P *Program) verifyProp(id string, ms int) []*FnReport {
	done := map[string]bool{}
	var all []*FnReport
	var todo []string
	for _, n := range P.Spec.order {
		for _, p := range P.Spec.contracts[n].props {
			if p == id {
				todo = append(todo, n)
			}
		}
	}
	for len(todo) > 0 {
		var batch []*Contract
		for _, n := range todo {
			ct := P.Spec.contracts[n]
			if done[n] || ct == nil || ct.iface || ct.trusted || contains(ct.elsewhere, id) {
				continue
			}
			done[n] = true
			batch = append(batch, ct)
		}
		todo = nil
		reps := make([]*FnReport, len(batch))
		var wg sync.WaitGroup
		slots := make(chan struct{}, max(2, runtime.NumCPU()/2))
		for i, ct := range batch {
			wg.Add(1)
			go func(i int, ct *Contract) {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				reps[i] = P.VerifyContract(ct, id, ms)
			}(i, ct)
		}
		wg.Wait()
		for _, r := range reps {
			all = append(all, r)
			todo = append(todo, r.Uses...)
		}
	}
	return all
}

var lemmaProps = regexp.MustCompile(`(?m)^; props:(.*)$`)

// runLemmas discharges the closed SMT lemmas that back a property's axioms:
// every check-sat of the file has to answer unsat.
func runLemmas(dir, id string) []*FnReport {
	var out []*FnReport
	fs, _ := filepath.Glob(filepath.Join(dir, "*.smt2"))
	sort.Strings(fs)
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		m := lemmaProps.FindSubmatch(b)
		if m == nil || !strings.Contains(" "+string(m[1])+" ", " "+id+" ") {
			continue
		}
		want := strings.Count(string(b), "(check-sat)")
		r := &FnReport{Name: "lemma " + filepath.Base(f), Status: "failed", Attempt: 1, Solvers: map[string]int{}}
		t0 := time.Now()
		for _, cmd := range [][]string{{"z3-new", "-T:60"}, {"cvc5", "--incremental", "--strings-exp", "--tlimit=60000"}, {"z3", "-T:60"}} {
			o, _ := exec.Command(cmd[0], append(cmd[1:], f)...).CombinedOutput()
			n := 0
			for _, l := range strings.Fields(string(o)) {
				if l == "unsat" {
					n++
				} else {
					n = -1 << 20
				}
			}
			if n == want {
				r.Status = "proved"
				r.Obligations, r.Discharged = want, want
				r.Solvers[cmd[0]] = want
				break
			}
		}
		r.SolverMS = time.Since(t0).Milliseconds()
		for i := 0; i < want; i++ {
			nm := fmt.Sprintf("lemma %s #%d", filepath.Base(f), i+1)
			r.Names = append(r.Names, nm)
		}
		if r.Status != "proved" {
			r.Obligations = want
			r.Failed = append(r.Failed, FailedObl{Name: r.Name, Status: "unknown"})
		}
		out = append(out, r)
	}
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}
