// props: P07

package zz_p07

import (
	"fmt"
	"testing"

	"github.com/mrasu/GravityR/database/dservice/dparser"
	hparser "github.com/mrasu/GravityR/database/hasura/hservice/parser"
	mparser "github.com/mrasu/GravityR/database/mysql/mservice/parser"
	pparser "github.com/mrasu/GravityR/database/postgres/pservice/parser"
	h "github.com/mrasu/GravityR/zz_verifh"
)

type row struct {
	T, C string
	P    bool
}

func TestVerif_P07_schemas(t *testing.T) {
	r := h.Rand(701)
	names := []string{"a", "b", "A", "", "t1", "users"}
	for i := 0; i < h.N(20000); i++ {
		var rows []row
		for j, n := 0, r.Intn(10); j < n; j++ {
			rows = append(rows, row{h.Pick(r, names), h.Pick(r, []string{"x", "y", "z", "X"}), r.Intn(3) == 0})
		}
		var ask []string
		for j, n := 0, r.Intn(5); j < n; j++ {
			ask = append(ask, h.Pick(r, names))
		}
		in := h.J(rows) + " tables " + h.J(ask)
		h.Guard(t, in, func() {
			got := dparser.CreateTableSchemas(ask, rows, func(x row) (string, string, bool) { return x.T, x.C, x.P })
			if len(got) != len(ask) {
				h.Fail(t, in, "%d entries, want %d", len(got), len(ask))
			}
			for k, a := range ask {
				var cols, pk []string
				for _, x := range rows {
					if x.T == a {
						cols = append(cols, x.C)
						if x.P {
							pk = append(pk, x.C)
						}
					}
				}
				if (got[k] == nil) != (len(cols) == 0) {
					h.Fail(t, in, "entry %d empty=%v, rows %v", k, got[k] == nil, cols)
				}
				if got[k] == nil {
					continue
				}
				var gc []string
				for _, c := range got[k].Columns {
					gc = append(gc, c.Name)
				}
				if got[k].Name != a || fmt.Sprint(gc) != fmt.Sprint(cols) || fmt.Sprint(got[k].PrimaryKeys) != fmt.Sprint(pk) {
					h.Fail(t, in, "entry %d is %s %v pk %v, want %s %v pk %v", k, got[k].Name, gc, got[k].PrimaryKeys, a, cols, pk)
				}
			}
		})
	}
	h.Stat(t, h.N(20000), "random row lists and requests")
}

func TestVerif_P07_catalogs(t *testing.T) {
	r := h.Rand(702)
	var cur []h.Col
	my, pg, ha := h.Catalogs(r, &cur)
	defer ha.Close()
	names := []string{"users", "orders", "t1", "user_s"}
	read := map[string]func([]string) ([]*dparser.TableSchema, error){
		"mysql":    func(ts []string) ([]*dparser.TableSchema, error) { return mparser.CollectTableSchemas(my, "app", ts) },
		"postgres": func(ts []string) ([]*dparser.TableSchema, error) { return pparser.CollectTableSchemas(pg, "app", ts) },
		"hasura": func(ts []string) ([]*dparser.TableSchema, error) {
			return hparser.CollectTableSchemas(ha.Client(), "app", ts)
		},
	}
	n := 0
	for i := 0; i < h.N(400); i++ {
		cur = nil
		have := map[string]bool{}
		for j, k := 0, r.Intn(14); j < k; j++ {
			c := h.Col{Schema: h.Pick(r, []string{"app", "app", "app", "other"}), Table: h.Pick(r, names), Name: h.Pick(r, []string{"z", "a", "id", "Name", "name", "b"}), PK: r.Intn(3) == 0}
			if k := c.Schema + "." + c.Table + "." + c.Name; !have[k] {
				have[k] = true
				cur = append(cur, c)
			}
		}
		var ask []string
		for len(ask) == 0 || r.Intn(2) == 0 && len(ask) < 4 {
			ask = append(ask, h.Pick(r, names))
		}
		for d, f := range read {
			in := d + " " + h.J(cur) + " tables " + h.J(ask)
			h.Guard(t, in, func() {
				got, err := f(ask)
				n++
				missing := false
				var want []string
				for _, a := range ask {
					var cols, pk []string
					for _, c := range cur {
						if c.Schema == "app" && c.Table == a {
							cols = append(cols, c.Name)
							if c.PK {
								pk = append(pk, c.Name)
							}
						}
					}
					missing = missing || len(cols) == 0
					want = append(want, fmt.Sprint(a, cols, pk))
				}
				if (err != nil) != missing {
					h.Fail(t, in, "error %v, some table missing: %v", err, missing)
				}
				if missing {
					return
				}
				var g []string
				for _, s := range got {
					var cols []string
					for _, c := range s.Columns {
						cols = append(cols, c.Name)
					}
					g = append(g, fmt.Sprint(s.Name, cols, s.PrimaryKeys))
				}
				if h.J(g) != h.J(want) {
					h.Fail(t, in, "schemas %v, want %v", g, want)
				}
			})
		}
	}
	h.Stat(t, n, "catalogs read through the three dialects")
}
