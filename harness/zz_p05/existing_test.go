// props: P05

package zz_p05

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/database/hasura/hservice"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	h "github.com/mrasu/GravityR/zz_verifh"
)

type index struct {
	Schema, Table, Name string
	Cols                []string
}

type world struct {
	Db      string
	Indexes []index
	Targets []index // candidates (Schema, Name unused)
}

var tables = []string{"users", "orders", "t", "Users", "user_s", "todos_2"}
var columns = []string{"id", "name", "Name", "NAME", "user_id", "a", "b", "c", "ab", "ſ", "s", "S"}

func cols(r *rand.Rand) []string {
	n := 1 + r.Intn(3)
	var o []string
	for i := 0; i < n; i++ {
		o = append(o, h.Pick(r, columns))
	}
	return o
}

func gen(r *rand.Rand) world {
	w := world{Db: "app"}
	nt := 1 + r.Intn(4)
	names := []string{"PRIMARY", "idx", "idx_2", "a_idx"}
	for i, n := 0, r.Intn(9); i < n; i++ {
		ix := index{Schema: "app", Table: tables[r.Intn(nt)], Name: h.Pick(r, names), Cols: cols(r)}
		if r.Intn(5) == 0 {
			ix.Schema = "other"
		}
		dup := false
		for _, o := range w.Indexes {
			dup = dup || o.Schema == ix.Schema && o.Table == ix.Table && o.Name == ix.Name
		}
		if !dup {
			w.Indexes = append(w.Indexes, ix)
		}
	}
	for i, n := 0, r.Intn(9); i < n; i++ {
		tg := index{Table: tables[r.Intn(nt)], Cols: cols(r)}
		if len(w.Indexes) > 0 && r.Intn(2) == 0 {
			// near an existing index
			o := h.Pick(r, w.Indexes)
			tg = index{Table: o.Table, Cols: append([]string(nil), o.Cols...)}
			switch r.Intn(6) {
			case 0:
				tg.Cols[r.Intn(len(tg.Cols))] = h.Pick(r, columns)
			case 1:
				tg.Cols = append(tg.Cols, h.Pick(r, columns))
			case 2:
				tg.Cols = tg.Cols[:len(tg.Cols)-1+r.Intn(2)]
				if len(tg.Cols) == 0 {
					tg.Cols = cols(r)
				}
			case 3:
				k := r.Intn(len(tg.Cols))
				tg.Cols[k] = strings.ToUpper(tg.Cols[k])
			case 4:
				r.Shuffle(len(tg.Cols), func(i, j int) { tg.Cols[i], tg.Cols[j] = tg.Cols[j], tg.Cols[i] })
			case 5:
				tg.Table = tables[r.Intn(nt)]
			}
		}
		w.Targets = append(w.Targets, tg)
	}
	return w
}

func (w world) dropped(t index) bool {
	for _, ix := range w.Indexes {
		if ix.Schema != w.Db || ix.Table != t.Table || len(ix.Cols) != len(t.Cols) {
			continue
		}
		same := true
		for i := range ix.Cols {
			same = same && strings.EqualFold(ix.Cols[i], t.Cols[i])
		}
		if same {
			return true
		}
	}
	return false
}

func arr(cs []string) string {
	var o []string
	for _, c := range cs {
		o = append(o, `"`+c+`"`)
	}
	return "{" + strings.Join(o, ",") + "}"
}

func (w world) rows(pg bool) []h.Row {
	var out []h.Row
	for _, ix := range w.Indexes {
		if pg {
			out = append(out, h.Row{"PG_NAMESPACE.NSPNAME": ix.Schema, "T.RELNAME": ix.Table, "I.RELNAME": ix.Name, "COLS": arr(ix.Cols)})
			continue
		}
		for i, c := range ix.Cols {
			out = append(out, h.Row{"TABLE_SCHEMA": ix.Schema, "TABLE_NAME": ix.Table, "INDEX_NAME": ix.Name, "SEQ_IN_INDEX": fmt.Sprint(i + 1), "COLUMN_NAME": c})
		}
	}
	return out
}

// getter under test over the catalog of w
func getters(r *rand.Rand, cur *world) (map[string]dservice.IndexGetter, func()) {
	my := &h.FakeDB{Reply: func(q string, a []driver.Value) (*h.Rows, error) {
		res := &h.Rows{Cols: []string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}}
		for _, x := range h.EvalCatalog(r, q, a, cur.rows(false)) {
			res.Data = append(res.Data, []driver.Value{x["TABLE_NAME"], x["INDEX_NAME"], x["COLUMN_NAME"]})
		}
		return res, nil
	}}
	pg := &h.FakeDB{Reply: func(q string, a []driver.Value) (*h.Rows, error) {
		res := &h.Rows{Cols: []string{"index_name", "table_name", "column_names"}}
		for _, x := range h.EvalCatalog(r, q, a, cur.rows(true)) {
			res.Data = append(res.Data, []driver.Value{x["I.RELNAME"], x["T.RELNAME"], x["COLS"]})
		}
		return res, nil
	}}
	ha := h.NewFakeHasura(func(c h.HasuraCall) (int, string) {
		res := [][]string{{"table_name", "column_names"}}
		for _, x := range h.EvalCatalog(r, c.SQL(), nil, cur.rows(true)) {
			res = append(res, []string{x["T.RELNAME"], x["COLS"]})
		}
		b, _ := json.Marshal(map[string]interface{}{"result_type": "TuplesOk", "result": res})
		return 200, string(b)
	})
	return map[string]dservice.IndexGetter{
		"mysql":    mservice.NewIndexGetter(mysql.NewDB(my.Sqlx("mysql"))),
		"postgres": pservice.NewIndexGetter(postgres.NewDB(pg.Sqlx("postgres"))),
		"hasura":   hservice.NewIndexGetter(ha.Client()),
	}, ha.Close
}

func show(w world, its []*dmodel.IndexTarget) []string {
	var o []string
	for _, it := range its {
		o = append(o, it.TableName+":"+strings.Join(names(it), "+"))
	}
	return o
}

func names(it *dmodel.IndexTarget) []string {
	var o []string
	for _, c := range it.Columns {
		o = append(o, c.Name)
	}
	return o
}

func TestVerif_P05_end_to_end(t *testing.T) {
	r := h.Rand(501)
	var w world
	gs, done := getters(r, &w)
	defer done()
	n := 0
	for i := 0; i < h.N(700); i++ {
		w = gen(r)
		for name, g := range gs {
			var its []*dmodel.IndexTarget
			for _, tg := range w.Targets {
				its = append(its, dmodel.NewIndexTarget(tg.Table, tg.Cols))
			}
			if len(its) > 0 && r.Intn(3) == 0 { // the same candidate given twice
				its = append(its, its[r.Intn(len(its))])
			}
			given := append([]*dmodel.IndexTarget(nil), its...)
			in := name + " " + h.J(w)
			h.Guard(t, in, func() {
				got, err := dservice.NewExistingIndexRemover(g, w.Db, its).Remove()
				if err != nil {
					h.Fail(t, in, "error %v", err)
				}
				var want []*dmodel.IndexTarget
				seen := map[*dmodel.IndexTarget]bool{}
				for _, it := range given {
					if !seen[it] && !w.dropped(index{Table: it.TableName, Cols: names(it)}) {
						want = append(want, it)
					}
					seen[it] = true
				}
				if h.J(show(w, got)) != h.J(show(w, want)) {
					h.Fail(t, in, "%s: kept %v, want %v", name, show(w, got), show(w, want))
				}
			})
			n++
		}
	}
	h.Stat(t, n, "random catalogs and candidates through the three dialects")
}

func TestVerif_P05_getter(t *testing.T) {
	r := h.Rand(502)
	var w world
	gs, done := getters(r, &w)
	defer done()
	n := 0
	for i := 0; i < h.N(300); i++ {
		w = gen(r)
		ask := []string{h.Pick(r, tables)}
		for len(ask) < 3 && r.Intn(2) == 0 {
			ask = append(ask, h.Pick(r, tables))
		}
		in := h.J(w) + " tables " + h.J(ask)
		count := map[string]int{}
		for _, ix := range w.Indexes {
			for _, a := range ask {
				if ix.Schema == w.Db && ix.Table == a {
					count[ix.Table+":"+strings.Join(ix.Cols, "+")]++
					break
				}
			}
		}
		for name, g := range gs {
			h.Guard(t, in, func() {
				got, err := g.GetIndexes(w.Db, ask)
				if err != nil {
					h.Fail(t, in, "%s: error %v", name, err)
				}
				c := map[string]int{}
				for _, s := range show(w, got) {
					c[s]++
				}
				if h.J(c) != h.J(count) {
					h.Fail(t, in, "%s: indexes %v, want %v", name, c, count)
				}
			})
			n++
		}
	}
	h.Stat(t, n, "random catalogs read through the three dialects")
}

func TestVerif_P05_same_columns(t *testing.T) {
	r := h.Rand(503)
	for i := 0; i < h.N(20000); i++ {
		a, b := cols(r), cols(r)
		if r.Intn(2) == 0 {
			b = append([]string(nil), a...)
			b[r.Intn(len(b))] = h.Pick(r, columns)
		}
		want := len(a) == len(b)
		for i := range a {
			want = want && strings.EqualFold(a[i], b[i])
		}
		in := h.J(a) + " " + h.J(b)
		h.Guard(t, in, func() {
			if got := dmodel.NewIndexTarget("t", a).HasSameIdxColumns(dmodel.NewIndexTarget("u", b)); got != want {
				h.Fail(t, in, "same columns %v, want %v", got, want)
			}
		})
	}
	h.Stat(t, h.N(20000), "pairs of column lists")
}
