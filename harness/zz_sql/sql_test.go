// props: P06 P08

package zz_sql

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice/dparser"
	hparser "github.com/mrasu/GravityR/database/hasura/hservice/parser"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	mparser "github.com/mrasu/GravityR/database/mysql/mservice/parser"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	pparser "github.com/mrasu/GravityR/database/postgres/pservice/parser"
	h "github.com/mrasu/GravityR/zz_verifh"
	tParser "github.com/pingcap/tidb/parser"
)

const (
	ref  = dparser.FieldReference
	cond = dparser.FieldCondition
)

type use map[string]map[string]dparser.FieldType // table -> column -> strongest use

func (u use) add(tbl, col string, ty dparser.FieldType) {
	if u[tbl] == nil {
		u[tbl] = map[string]dparser.FieldType{}
	}
	if old, ok := u[tbl][col]; !ok || old == ref {
		u[tbl][col] = ty
	}
}

// expected candidates of one table
func expected(tbl string, cols map[string]dparser.FieldType, pk []string) []string {
	var names []string
	for c := range cols {
		names = append(names, c)
	}
	sort.Strings(names)
	isPk := map[string]bool{}
	for _, p := range pk {
		isPk[p] = true
	}
	var out []string
	var walk func(cur []string, used map[string]bool)
	walk = func(cur []string, used map[string]bool) {
		if len(cur) > 0 {
			ok, allPk, seenRef := true, true, false
			for i, c := range cur {
				allPk = allPk && isPk[c]
				if cols[c] == ref {
					if seenRef && cur[i-1] > c {
						ok = false
					}
					seenRef = true
				} else if seenRef {
					ok = false
				}
			}
			if seenRef && len(cur) != len(names) {
				ok = false
			}
			if ok && !allPk {
				out = append(out, tbl+":"+strings.Join(cur, "+"))
			}
		}
		for _, n := range names {
			if !used[n] {
				used[n] = true
				walk(append(append([]string(nil), cur...), n), used)
				used[n] = false
			}
		}
	}
	walk(nil, map[string]bool{})
	return out
}

func got(its []*dmodel.IndexTarget) []string {
	var o []string
	for _, it := range its {
		var cs []string
		for _, c := range it.Columns {
			cs = append(cs, c.Name)
		}
		o = append(o, it.TableName+":"+strings.Join(cs, "+"))
	}
	sort.Strings(o)
	return o
}

func compare(t *testing.T, in string, its []*dmodel.IndexTarget, err error, u use, schemas []*dparser.TableSchema) {
	t.Helper()
	if err != nil {
		h.Fail(t, in, "error: %v", err)
	}
	want := []string{}
	for tbl, cols := range u {
		var pk []string
		for _, s := range schemas {
			if s.Name == tbl {
				pk = s.PrimaryKeys
			}
		}
		want = append(want, expected(tbl, cols, pk)...)
	}
	sort.Strings(want)
	g := got(its)
	if len(g) == 0 {
		g = []string{}
	}
	if h.J(g) != h.J(want) {
		h.Fail(t, in, "candidates %v, want %v", g, want)
	}
}

var tableCols = map[string][]string{
	"users":  {"id", "name", "age"},
	"orders": {"id", "user_id", "total"},
	"items":  {"sku", "order_id", "price"},
}
var uniq = map[string]bool{"name": true, "age": true, "user_id": true, "total": true, "sku": true, "order_id": true, "price": true}

var schemas = []*dparser.TableSchema{
	{Name: "users", PrimaryKeys: []string{"id"}},
	{Name: "orders", PrimaryKeys: []string{"id"}},
	{Name: "items", PrimaryKeys: []string{"order_id", "sku"}},
}

func catalog() []h.Col {
	var out []h.Col
	for _, s := range schemas {
		for _, c := range tableCols[s.Name] {
			pk := false
			for _, p := range s.PrimaryKeys {
				pk = pk || p == c
			}
			for _, d := range []string{"public", "app"} {
				out = append(out, h.Col{Schema: d, Table: s.Name, Name: c, PK: pk})
			}
		}
	}
	return out
}

// src is one table of FROM: name as referred to, and its visible columns with what they stand for
type src struct {
	as   string
	cols map[string][2]string // visible column -> table, column
}

type gen struct {
	r    *rand.Rand
	pg   bool
	u    use
	srcs []src
	sub  int
}

func (g *gen) col(ty dparser.FieldType) string {
	s := h.Pick(g.r, g.srcs)
	var names []string
	for c := range s.cols {
		names = append(names, c)
	}
	sort.Strings(names)
	c := h.Pick(g.r, names)
	t := s.cols[c]
	g.u.add(t[0], t[1], ty)
	n := 0
	for _, x := range g.srcs {
		if _, ok := x.cols[c]; ok {
			n++
		}
	}
	if n == 1 && (uniq[c] || strings.HasPrefix(c, "x_")) && g.sub == 0 && g.r.Intn(2) == 0 {
		return c
	}
	return s.as + "." + c
}

func (g *gen) expr(ty dparser.FieldType, d int) string {
	e := func() string { return g.expr(ty, d-1) }
	if d <= 0 || g.r.Intn(3) == 0 {
		return g.col(ty)
	}
	switch g.r.Intn(12) {
	case 0:
		return e() + " + 1"
	case 1:
		return "(" + e() + " - " + e() + ")"
	case 2:
		return "COALESCE(" + e() + ", " + e() + ")"
	case 3:
		return "CASE WHEN " + e() + " = 1 THEN " + e() + " ELSE " + e() + " END"
	case 4:
		return "CAST(" + e() + " AS CHAR)"
	case 5:
		return "LOWER(" + e() + ")"
	case 6:
		return "-" + g.col(ty)
	case 7:
		return "CASE " + e() + " WHEN 1 THEN 2 WHEN " + e() + " THEN 3 END"
	case 8:
		return "NULLIF(" + e() + ", " + e() + ")"
	}
	return g.col(ty)
}

func (g *gen) pred(ty dparser.FieldType, d int) string {
	e := func() string { return g.expr(ty, 1) }
	if d > 0 {
		switch g.r.Intn(8) {
		case 0, 1:
			return g.pred(ty, d-1) + " AND " + g.pred(ty, d-1)
		case 2:
			return "(" + g.pred(ty, d-1) + " OR " + g.pred(ty, d-1) + ")"
		case 3:
			return "NOT (" + g.pred(ty, d-1) + ")"
		case 4, 5:
			if g.pg && g.sub == 0 && ty == cond {
				return g.subPred()
			}
		}
	}
	switch g.r.Intn(10) {
	case 0:
		return e() + " IS NULL"
	case 1:
		return e() + " IN (1, " + e() + ")"
	case 2:
		return e() + " BETWEEN " + e() + " AND " + e()
	case 3:
		return e() + " LIKE 'a%'"
	case 4:
		return "(" + e() + ", " + e() + ") = (1, 2)"
	case 5:
		return "1 < " + e()
	case 6:
		return e() + " >= " + e()
	}
	return e() + " = 'x'"
}

// a subquery in a condition, possibly referring to the outer tables
func (g *gen) subPred() string {
	t := "items"
	outer := g.srcs
	g.sub++
	inner := src{as: "z", cols: map[string][2]string{}}
	for _, c := range tableCols[t] {
		inner.cols[c] = [2]string{t, c}
	}
	g.srcs = []src{inner}
	in := g.col(ref)
	where := g.pred(cond, 0)
	in2 := g.col(cond)
	g.srcs = outer
	corr := g.col(cond)
	out := "SELECT " + in + " FROM items AS z WHERE " + where + " AND " + in2 + " = " + corr
	g.sub--
	if g.r.Intn(2) == 0 {
		return "EXISTS (" + out + ")"
	}
	return g.col(cond) + " IN (" + out + ")"
}

func (g *gen) table(name string) string {
	s := src{as: name, cols: map[string][2]string{}}
	for _, c := range tableCols[name] {
		s.cols[c] = [2]string{name, c}
	}
	if g.pg && g.r.Intn(4) == 0 {
		// derived table
		outer := g.srcs
		g.srcs = []src{s}
		d := src{as: "d_" + name, cols: map[string][2]string{}}
		var fs []string
		for _, c := range tableCols[name] {
			if g.r.Intn(4) > 0 || len(fs) == 0 {
				vis := c
				f := name + "." + c
				if g.r.Intn(2) == 0 {
					vis = "x_" + c
					f += " AS " + vis
				}
				fs = append(fs, f)
				d.cols[vis] = [2]string{name, c}
				g.u.add(name, c, ref)
			}
		}
		w := ""
		if g.r.Intn(2) == 0 {
			w = " WHERE " + g.pred(cond, 0)
		}
		g.srcs = append(outer, d)
		return "(SELECT " + strings.Join(fs, ", ") + " FROM " + name + w + ") AS " + d.as
	}
	if g.r.Intn(2) == 0 {
		s.as = "al_" + name
		name += " AS " + s.as
	}
	g.srcs = append(g.srcs, s)
	return name
}

func (g *gen) query() string {
	ts := []string{"users", "orders"}
	g.r.Shuffle(2, func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	from := g.table(ts[0])
	if g.r.Intn(2) == 0 {
		from += h.Pick(g.r, []string{" INNER JOIN ", " LEFT JOIN ", " JOIN "}) + g.table(ts[1])
		from += " ON " + g.pred(cond, 1)
	}
	var fs []string
	for i := 0; i <= g.r.Intn(3); i++ {
		switch g.r.Intn(6) {
		case 0:
			fs = append(fs, "COUNT("+g.col(ref)+")")
		case 1:
			fs = append(fs, g.expr(ref, 2)+fmt.Sprintf(" AS o%d", i))
		case 2:
			fs = append(fs, "COUNT(*)")
		case 3:
			fs = append(fs, "*")
		default:
			fs = append(fs, g.expr(ref, 1))
		}
	}
	q := "SELECT " + strings.Join(fs, ", ") + " FROM " + from
	if g.r.Intn(4) > 0 {
		q += " WHERE " + g.pred(cond, 2)
	}
	if g.r.Intn(4) == 0 {
		q += " GROUP BY " + g.col(ref) + ", " + g.expr(ref, 1)
		if g.r.Intn(2) == 0 {
			q += " HAVING COUNT(" + g.col(ref) + ") > 1"
		}
	}
	if g.r.Intn(3) == 0 {
		q += " ORDER BY " + g.col(ref) + " DESC, " + g.expr(ref, 1)
	}
	if g.r.Intn(4) == 0 {
		q += " LIMIT 3"
		if g.r.Intn(2) == 0 {
			q += " OFFSET 2"
		}
	}
	return q
}

func run(t *testing.T, r *rand.Rand, n int, what string) {
	cur := catalog()
	my, pg, ha := h.Catalogs(r, &cur)
	defer ha.Close()
	for i := 0; i < n; i++ {
		g := &gen{r: r, pg: i%2 == 0, u: use{}}
		q := g.query()
		k := 0
		for _, m := range g.u {
			k += len(m)
		}
		if k > 6 {
			continue
		}
		h.Guard(t, q, func() {
			if !g.pg {
				st, err := mservice.Parse(tParser.New(), q)
				if err != nil {
					h.Fail(t, q, "does not parse: %v", err)
				}
				its, errs := mparser.ListPossibleIndexes(my, "app", st)
				compare(t, "mysql "+q, its, first(errs), g.u, schemas)
				return
			}
			st, err := pservice.Parse(q)
			if err != nil {
				h.Fail(t, q, "does not parse: %v", err)
			}
			its, errs := pparser.ListPossibleIndexes(pg, "public", st)
			compare(t, "postgres "+q, its, first(errs), g.u, schemas)
			if i%8 == 0 {
				its, errs = hparser.ListPossibleIndexes(ha.Client(), st)
				compare(t, "hasura "+q, its, first(errs), g.u, schemas)
			}
		})
	}
	h.Stat(t, n, what)
}

func first(errs []error) error {
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}

func TestVerif_P06_sql(t *testing.T) { run(t, h.Rand(606), h.N(1500), "generated SQL statements") }
func TestVerif_P08_sql(t *testing.T) { run(t, h.Rand(808), h.N(1500), "generated SQL statements") }
