package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func dumpExternals(P *Program) {
	cnt := map[string]int{}
	for _, fn := range P.funcs {
		if !inlinable(fn) {
			continue
		}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if cf := c.Common().StaticCallee(); cf != nil && !inlinable(cf) {
							n := cf.String()
							if cf.Origin() != nil {
								n = cf.Origin().String()
							}
							cnt[n]++
						} else if c.Common().IsInvoke() {
							cnt["invoke "+objName(c.Common().Method)]++
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		visit(fn)
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(cnt[k], k)
	}
}
