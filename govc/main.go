package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

var dumpDir = os.Getenv("GOVC_DUMP")

func dumpScript(name, s string) {
	os.MkdirAll(dumpDir, 0o755)
	os.WriteFile(filepath.Join(dumpDir, mangle(name)+".smt2"), []byte(s), 0o644)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specDir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "")
	only := flag.String("func", "", "")
	ms := flag.Int("ms", 10000, "")
	verbose := flag.Bool("v", false, "")
	ext := flag.Bool("externs", false, "")
	flag.IntVar(&maxAttempt, "attempts", 3, "")
	check := flag.String("check", "", "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	flag.Parse()
	if *check != "" {
		seed := os.Getenv("VERIF_SEED")
		if seed == "" {
			seed = "1"
		}
		os.Exit(runCheck(checkCfg{*verif, *repo, *check, *tier, seed, *ms}))
	}
	P, err := LoadProgram(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *ext {
		dumpExternals(P)
		return
	}
	P.Spec, err = LoadSpec(*specDir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	P.Spec.ForProp(*prop)
	for _, n := range P.Spec.order {
		ct := P.Spec.contracts[n]
		if ct.iface || ct.trusted {
			continue
		}
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		if *prop != "" {
			has := false
			for _, p := range ct.props {
				has = has || p == *prop
			}
			if !has {
				continue
			}
		}
		r := P.VerifyContract(ct, *prop, *ms)
		fmt.Printf("%-60s %s obl %d/%d inv %d solver %dms wall %dms attempt %d %s\n", n, r.Status, r.Discharged, r.Obligations, r.InvChecks, r.SolverMS, r.WallMS, r.Attempt, r.Reason)
		for _, f := range r.Failed {
			fmt.Printf("   FAILED %s [%s %s] %s %s\n", f.Name, f.Status, f.Solver, f.Desc, trunc(f.Output, 200))
		}
		if *verbose {
			for _, d := range r.Dropped {
				fmt.Println("   dropped", d)
			}
		}
		if *verbose {
			b, _ := json.MarshalIndent(r, "", " ")
			fmt.Println(string(b))
		}
	}
}
