// props: *

package zz_verifh

import (
	"database/sql/driver"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Row is a catalog row keyed by the upper-cased column expression.
type Row map[string]string

var (
	condReg  = regexp.MustCompile(`(?i)([A-Za-z_.]+)\s*(=|\bIN\b)\s*(\?|\$\d+|'[^']*'|\((?:\s*(?:\?|\$\d+|'[^']*')\s*,?)*\s*\))`)
	valReg   = regexp.MustCompile(`\?|\$\d+|'[^']*'`)
	orderReg = regexp.MustCompile(`(?is)ORDER\s+BY\s+([^)]*)$`)
)

// EvalCatalog answers a catalog query over rows: the equality and IN conditions on
// known columns filter, ORDER BY orders, and what is left open comes in random order.
func EvalCatalog(r *rand.Rand, q string, args []driver.Value, rows []Row) []Row {
	if len(rows) == 0 {
		return nil
	}
	out := append([]Row(nil), rows...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	next := map[int]int{} // text offset of a ? -> argument
	n := 0
	for _, m := range valReg.FindAllStringIndex(q, -1) {
		if q[m[0]] == '?' {
			next[m[0]] = n
			n++
		}
	}
	arg := func(i int) string {
		if i < 0 || i >= len(args) {
			return "\x00missing"
		}
		return fmt.Sprint(args[i])
	}
	for _, m := range condReg.FindAllStringSubmatchIndex(q, -1) {
		col := strings.ToUpper(q[m[2]:m[3]])
		if _, ok := rows[0][col]; !ok {
			continue
		}
		set := map[string]bool{}
		for _, v := range valReg.FindAllStringIndex(q[m[6]:m[7]], -1) {
			s := q[m[6]+v[0] : m[6]+v[1]]
			switch s[0] {
			case '?':
				set[arg(next[m[6]+v[0]])] = true
			case '$':
				k, _ := strconv.Atoi(s[1:])
				set[arg(k-1)] = true
			default:
				set[s[1:len(s)-1]] = true
			}
		}
		var keep []Row
		for _, x := range out {
			if set[x[col]] {
				keep = append(keep, x)
			}
		}
		out = keep
	}
	if m := orderReg.FindStringSubmatch(strings.TrimRight(strings.TrimSpace(q), ";")); m != nil {
		keys := strings.Split(m[1], ",")
		sort.SliceStable(out, func(i, j int) bool {
			for _, k := range keys {
				f := strings.Fields(strings.ToUpper(k))
				if len(f) == 0 {
					continue
				}
				a, b := out[i][f[0]], out[j][f[0]]
				if a == b {
					continue
				}
				less := a < b
				x, e1 := strconv.Atoi(a)
				y, e2 := strconv.Atoi(b)
				if e1 == nil && e2 == nil {
					less = x < y
				}
				if len(f) > 1 && f[1] == "DESC" {
					return !less
				}
				return less
			}
			return false
		})
	}
	return out
}
