// props: P06 P08

package zz_p0608

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice/dparser"
	h "github.com/mrasu/GravityR/zz_verifh"
)

const (
	ref  = dparser.FieldReference
	cond = dparser.FieldCondition
)

type use map[string]map[string]dparser.FieldType // table -> column -> strongest use

func (u use) add(tbl, col string, ty dparser.FieldType) {
	if u[tbl] == nil {
		u[tbl] = map[string]dparser.FieldType{}
	}
	if old, ok := u[tbl][col]; !ok || old == ref {
		u[tbl][col] = ty
	}
}

// expected candidates of one table
func expected(tbl string, cols map[string]dparser.FieldType, pk []string) []string {
	var names []string
	for c := range cols {
		names = append(names, c)
	}
	sort.Strings(names)
	isPk := map[string]bool{}
	for _, p := range pk {
		isPk[p] = true
	}
	var out []string
	var walk func(cur []string, used map[string]bool)
	walk = func(cur []string, used map[string]bool) {
		if len(cur) > 0 {
			ok, allPk, seenRef := true, true, false
			for i, c := range cur {
				allPk = allPk && isPk[c]
				if cols[c] == ref {
					if seenRef && cur[i-1] > c {
						ok = false
					}
					seenRef = true
				} else if seenRef {
					ok = false
				}
			}
			if seenRef && len(cur) != len(names) {
				ok = false
			}
			if ok && !allPk {
				out = append(out, tbl+":"+strings.Join(cur, "+"))
			}
		}
		for _, n := range names {
			if !used[n] {
				used[n] = true
				walk(append(append([]string(nil), cur...), n), used)
				used[n] = false
			}
		}
	}
	walk(nil, map[string]bool{})
	return out
}

func got(its []*dmodel.IndexTarget) []string {
	var o []string
	for _, it := range its {
		var cs []string
		for _, c := range it.Columns {
			cs = append(cs, c.Name)
		}
		o = append(o, it.TableName+":"+strings.Join(cs, "+"))
	}
	sort.Strings(o)
	return o
}

func compare(t *testing.T, in string, its []*dmodel.IndexTarget, err error, u use, schemas []*dparser.TableSchema) {
	t.Helper()
	if err != nil {
		h.Fail(t, in, "error: %v", err)
	}
	want := []string{}
	for tbl, cols := range u {
		var pk []string
		for _, s := range schemas {
			if s.Name == tbl {
				pk = s.PrimaryKeys
			}
		}
		want = append(want, expected(tbl, cols, pk)...)
	}
	sort.Strings(want)
	g := got(its)
	if len(g) == 0 {
		g = []string{}
	}
	if h.J(g) != h.J(want) {
		h.Fail(t, in, "candidates %v, want %v", g, want)
	}
}

// every assignment of use (none, read, filter) to up to 5 columns, every primary key subset of up to 2 of them
func TestVerif_P06_exhaustive(t *testing.T) {
	cols := []string{"b", "a", "c", "aa", "B"}
	pks := [][]string{nil, {"a"}, {"b", "a"}, {"c", "B", "aa"}, {"a", "b", "c", "aa", "B"}}
	n := 0
	for m := 0; m < 243; m++ {
		for _, pk := range pks {
			if m >= 81 && n%3 == 0 && h.N(1) == 1 { // a third of the widest ones in the quick run
				n++
				continue
			}
			n++
			s := &dparser.TableSchema{Name: "t", PrimaryKeys: pk}
			u := use{}
			sc := &dparser.StmtScope{Name: dparser.RootScopeName, Tables: []*dparser.Table{{Name: "t"}}}
			x := m
			for _, c := range cols {
				s.Columns = append(s.Columns, &dparser.ColumnSchema{Name: c})
				if x%3 > 0 {
					ty := ref
					if x%3 == 2 {
						ty = cond
					}
					u.add("t", c, ty)
					sc.Fields = append(sc.Fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Name: c, Type: ty}}})
				}
				x /= 3
			}
			in := fmt.Sprintf("uses %v primary key %v", u["t"], pk)
			ss := []*dparser.TableSchema{s}
			h.Guard(t, in, func() {
				its, err := dparser.NewIndexTargetBuilder(ss).Build([]*dparser.StmtScope{sc})
				compare(t, in, its, err, u, ss)
			})
		}
	}
	h.Stat(t, n, "use assignments over five columns")
}

// ---- random nested queries with known resolution ----

type col struct {
	name string
	base [][2]string // underlying table columns
}

// source is something visible in FROM
type source struct {
	as   string
	cols []col
}

type gen struct {
	r       *rand.Rand
	schemas []*dparser.TableSchema
	n       int
	u       use
}

func (g *gen) ty() dparser.FieldType {
	if g.r.Intn(2) == 0 {
		return cond
	}
	return ref
}

func (g *gen) uses(c col, ty dparser.FieldType) {
	for _, b := range c.base {
		g.u.add(b[0], b[1], ty)
	}
}

// scope generates a statement; outer are the sources of enclosing statements it may refer to
func (g *gen) scope(name string, depth int, outer []source) (*dparser.StmtScope, []col) {
	sc := &dparser.StmtScope{Name: name}
	var srcs []source
	nt := 1 + g.r.Intn(2)
	for _, k := range g.r.Perm(len(g.schemas))[:nt] {
		s := g.schemas[k]
		used := false
		for _, o := range outer { // keep names unambiguous
			used = used || o.as == s.Name
			for _, c := range o.cols {
				used = used || c.name == s.Columns[0].Name
			}
		}
		if used {
			continue
		}
		tb := &dparser.Table{Name: s.Name}
		if g.r.Intn(2) == 0 {
			g.n++
			tb.AsName = fmt.Sprintf("x%d", g.n)
		}
		sc.Tables = append(sc.Tables, tb)
		src := source{as: tb.AsOrName()}
		for _, c := range s.Columns {
			src.cols = append(src.cols, col{c.Name, [][2]string{{s.Name, c.Name}}})
		}
		srcs = append(srcs, src)
	}
	if depth > 0 && g.r.Intn(2) == 0 || len(srcs) == 0 {
		g.n++
		tb := &dparser.Table{Name: fmt.Sprintf("<select%d>", g.n), AsName: fmt.Sprintf("q%d", g.n)}
		vis := outer
		if len(srcs) > 0 && g.r.Intn(3) == 0 {
			tb.IsLateral = true
			vis = append(append([]source(nil), outer...), srcs...)
		}
		if depth > 0 {
			sub, out := g.scope(tb.Name, depth-1, vis)
			sc.Tables = append(sc.Tables, tb)
			sc.SubScopes = append(sc.SubScopes, sub)
			srcs = append(srcs, source{as: tb.AsName, cols: out})
		}
	}
	count := map[string]int{}
	for _, s := range srcs {
		for _, c := range s.cols {
			count[c.name]++
		}
	}
	pick := func() (source, col, bool) {
		all := srcs
		if len(outer) > 0 && g.r.Intn(3) == 0 {
			all = outer
		}
		if len(all) == 0 {
			return source{}, col{}, false
		}
		s := all[g.r.Intn(len(all))]
		if len(s.cols) == 0 {
			return source{}, col{}, false
		}
		return s, s.cols[g.r.Intn(len(s.cols))], true
	}
	var out []col
	outNames := map[string]bool{}
	for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
		f := &dparser.Field{}
		var o col
		for j, m := 0, 1+g.r.Intn(2); j < m; j++ {
			s, c, ok := pick()
			if !ok {
				continue
			}
			ty := g.ty()
			fc := &dparser.FieldColumn{Table: s.as, Name: c.name, Type: ty}
			inner := false
			for _, x := range srcs {
				inner = inner || x.as == s.as
			}
			if inner && count[c.name] == 1 && g.r.Intn(2) == 0 {
				fc.Table = ""
			}
			f.Columns = append(f.Columns, fc)
			g.uses(c, ty)
			o.base = append(o.base, c.base...)
		}
		if len(f.Columns) == 0 {
			continue
		}
		if g.r.Intn(2) == 0 {
			g.n++
			f.AsName = fmt.Sprintf("c%d", g.n)
		}
		o.name = f.Name()
		if o.name != "" && outNames[o.name] {
			g.n++
			f.AsName = fmt.Sprintf("c%d", g.n)
			o.name = f.AsName
		}
		if o.name != "" {
			outNames[o.name] = true
			out = append(out, o)
		}
		sc.Fields = append(sc.Fields, f)
	}
	if depth > 0 && g.r.Intn(3) == 0 { // scalar subquery that may see this statement's sources
		g.n++
		nm := fmt.Sprintf("<field%d>", g.n)
		sub, _ := g.scope(nm, depth-1, append(append([]source(nil), srcs...)))
		sc.FieldScopes = append(sc.FieldScopes, sub)
		sc.Fields = append(sc.Fields, &dparser.Field{Columns: []*dparser.FieldColumn{{ReferenceName: nm, Type: dparser.FieldSubquery}}})
	}
	return sc, out
}

func newGen(r *rand.Rand) *gen {
	g := &gen{r: r, u: use{}}
	for i, n := 0, 2+r.Intn(2); i < n; i++ {
		s := &dparser.TableSchema{Name: fmt.Sprintf("t%d", i)}
		for j, m := 0, 1+r.Intn(3); j < m; j++ {
			c := fmt.Sprintf("t%d_%s", i, string(rune('a'+j)))
			s.Columns = append(s.Columns, &dparser.ColumnSchema{Name: c})
			if r.Intn(4) == 0 {
				s.PrimaryKeys = append(s.PrimaryKeys, c)
			}
		}
		g.schemas = append(g.schemas, s)
	}
	return g
}

func TestVerif_P08_nested(t *testing.T) {
	r := h.Rand(801)
	for i := 0; i < h.N(6000); i++ {
		g := newGen(r)
		sc, _ := g.scope(dparser.RootScopeName, 2, nil)
		in := h.J(g.schemas) + " scope " + h.J(sc)
		h.Guard(t, in, func() {
			its, err := dparser.NewIndexTargetBuilder(g.schemas).Build([]*dparser.StmtScope{sc})
			compare(t, in, its, err, g.u, g.schemas)
		})
	}
	h.Stat(t, h.N(6000), "nested statements with known resolution")
}

// breaking one column or table reference must be reported
func TestVerif_P08_unresolved(t *testing.T) {
	r := h.Rand(802)
	n := 0
	for i := 0; i < h.N(4000); i++ {
		g := newGen(r)
		sc, _ := g.scope(dparser.RootScopeName, 2, nil)
		var fcs []*dparser.FieldColumn
		var all func(s *dparser.StmtScope)
		all = func(s *dparser.StmtScope) {
			for _, f := range s.Fields {
				for _, c := range f.Columns {
					if c.Type == ref || c.Type == cond {
						fcs = append(fcs, c)
					}
				}
			}
			for _, x := range s.SubScopes {
				all(x)
			}
			for _, x := range s.FieldScopes {
				all(x)
			}
		}
		all(sc)
		if len(fcs) == 0 {
			continue
		}
		c := fcs[r.Intn(len(fcs))]
		if c.Table != "" && r.Intn(2) == 0 {
			c.Table = "nowhere"
		} else {
			c.Name = "nosuch"
		}
		n++
		in := h.J(g.schemas) + " scope " + h.J(sc)
		h.Guard(t, in, func() {
			its, err := dparser.NewIndexTargetBuilder(g.schemas).Build([]*dparser.StmtScope{sc})
			if err == nil {
				h.Fail(t, in, "unresolvable column accepted: %v", got(its))
			}
		})
	}
	h.Stat(t, n, "statements with one broken reference")
}

// the order in which uses occur does not matter
func TestVerif_P08_order(t *testing.T) {
	cols := []string{"a", "b", "c"}
	s := []*dparser.TableSchema{{Name: "t", Columns: []*dparser.ColumnSchema{{Name: "a"}, {Name: "b"}, {Name: "c"}}}}
	n := 0
	for m := 0; m < 6*6*6*6; m++ {
		u := use{}
		sc := &dparser.StmtScope{Name: dparser.RootScopeName, Tables: []*dparser.Table{{Name: "t", AsName: "z"}}}
		for k, x := 0, m; k < 4; k++ {
			c, ty := cols[x%6/2], ref
			if x%2 == 1 {
				ty = cond
			}
			x /= 6
			u.add("t", c, ty)
			sc.Fields = append(sc.Fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "z", Name: c, Type: ty}}})
		}
		n++
		in := h.J(sc)
		h.Guard(t, in, func() {
			its, err := dparser.NewIndexTargetBuilder(s).Build([]*dparser.StmtScope{sc})
			compare(t, in, its, err, u, s)
		})
	}
	h.Stat(t, n, "sequences of four uses")
}

// a qualified column is looked up in its own table only
func TestVerif_P08_qualified(t *testing.T) {
	s := []*dparser.TableSchema{
		{Name: "a", Columns: []*dparser.ColumnSchema{{Name: "x"}, {Name: "k"}}},
		{Name: "b", Columns: []*dparser.ColumnSchema{{Name: "y"}, {Name: "k"}}},
	}
	has := map[string]string{"a": "xk", "b": "yk"}
	n := 0
	for m := 0; m < 2*2*4*2*2*3; m++ {
		x := m
		pick := func(k int) int { v := x % k; x /= k; return v }
		tbl := []string{"a", "b"}[pick(2)]
		as := []string{"", "z"}[pick(2)]
		col := []string{"x", "y", "k", "q"}[pick(4)]
		ty := []dparser.FieldType{ref, cond}[pick(2)]
		rev, nest := pick(2) == 1, pick(3)
		other := map[string]string{"a": "b", "b": "a"}[tbl]
		ts := []*dparser.Table{{Name: tbl, AsName: as}, {Name: other}}
		if rev {
			ts[0], ts[1] = ts[1], ts[0]
		}
		q := tbl
		if as != "" {
			q = as
		}
		f := &dparser.Field{Columns: []*dparser.FieldColumn{{Table: q, Name: col, Type: ty}}}
		sc := &dparser.StmtScope{Name: dparser.RootScopeName, Tables: ts, Fields: []*dparser.Field{f}}
		if nest > 0 {
			// the reference sits in a sub query of the fields; the other table inside or outside
			in := &dparser.StmtScope{Name: "<field0>", Tables: ts[:1], Fields: []*dparser.Field{f}}
			out := &dparser.StmtScope{Name: dparser.RootScopeName, Tables: ts[1:], FieldScopes: []*dparser.StmtScope{in}, Fields: []*dparser.Field{{Columns: []*dparser.FieldColumn{{ReferenceName: "<field0>", Type: dparser.FieldSubquery}}}}}
			if nest == 2 {
				in.Tables, out.Tables = ts[1:], ts[:1]
			}
			sc = out
		}
		n++
		in := h.J(sc)
		h.Guard(t, in, func() {
			its, err := dparser.NewIndexTargetBuilder(s).Build([]*dparser.StmtScope{sc})
			known := strings.Contains(has[tbl], col)
			if (err == nil) != known {
				h.Fail(t, in, "column known: %v, result %v, error %v", known, got(its), err)
			}
		})
	}
	h.Stat(t, n, "qualified columns over two tables")
}
