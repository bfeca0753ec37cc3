// props: P09 P10 P11

package zz_plan

import (
	"database/sql/driver"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/mysql/mmodel"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/database/postgres/pmodel"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	h "github.com/mrasu/GravityR/zz_verifh"
	"gopkg.in/guregu/null.v4"
)

// ---- numbers ----

func num(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return "0.000"
	case 1:
		return "0"
	case 2:
		return strconv.Itoa(r.Intn(2000))
	case 3:
		return fmt.Sprintf("%.3f", r.Float64()*1e6)
	case 4:
		return fmt.Sprintf("%d.%d", r.Int63(), r.Intn(100))
	case 5:
		return h.Pick(r, []string{"1.2.3", "...", ".", "1.", ".5"})
	case 6:
		return fmt.Sprintf("%.2f", r.Float64())
	default:
		return fmt.Sprintf("%.3f", r.Float64()*100)
	}
}

func count(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return "0"
	case 1:
		return h.Pick(r, []string{"9223372036854775807", "9223372036854775808", "99999999999999999999", "007"})
	case 2:
		return h.Pick(r, []string{"999", "1000", "1001", "123456"})
	default:
		return strconv.Itoa(r.Intn(100000))
	}
}

func plain(r *rand.Rand) string {
	return h.Pick(r, []string{"0.25", "1.5", "12.750", "100"})
}

type metrics struct {
	initCost, cost, first, avg null.Float
	erows, width, rows, loops  null.Int
}

func pf(s string, bad *bool) null.Float {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		*bad = true
	}
	return null.FloatFrom(v)
}

func pi(s string, bad *bool) null.Int {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		*bad = true
	}
	return null.IntFrom(v)
}

// metricText prints a random subset of metrics and tells what it printed.
func metricText(r *rand.Rand, pg, tame bool) (string, metrics, bool) {
	var m metrics
	bad := false
	n, c := num, count
	if tame {
		n = plain
		c = func(r *rand.Rand) string { return strconv.Itoa(r.Intn(5000)) }
	}
	s := ""
	if r.Intn(6) != 0 {
		if pg {
			a, b, e, w := n(r), n(r), c(r), c(r)
			s += fmt.Sprintf("(cost=%s..%s rows=%s width=%s)", a, b, e, w)
			m.initCost, m.cost, m.erows, m.width = pf(a, &bad), pf(b, &bad), pi(e, &bad), pi(w, &bad)
		} else {
			a := n(r)
			s += "(cost=" + a
			if r.Intn(2) == 0 {
				b := n(r)
				s += ".." + b
				m.initCost, m.cost = pf(a, &bad), pf(b, &bad)
			} else {
				m.cost = pf(a, &bad)
			}
			if r.Intn(4) != 0 {
				e := c(r)
				s += " rows=" + e
				m.erows = pi(e, &bad)
			}
			s += ")"
		}
	}
	if r.Intn(5) != 0 && (!pg || s != "") {
		if s != "" {
			s += " "
		}
		switch r.Intn(6) {
		case 0:
			s += "(never executed)"
		default:
			a, b, e, w := n(r), n(r), c(r), c(r)
			s += fmt.Sprintf("(actual time=%s..%s rows=%s loops=%s)", a, b, e, w)
			m.first, m.avg, m.rows, m.loops = pf(a, &bad), pf(b, &bad), pi(e, &bad), pi(w, &bad)
		}
	}
	return s, m, bad
}

// ambiguous: numbers made of dots cannot be split uniquely at "..", so the
// printed text decides nothing about where one number ends.
func ambiguous(s string) bool { return strings.Contains(s, "...") }

func feq(a, b null.Float) bool { return a.Valid == b.Valid && (!a.Valid || a.Float64 == b.Float64) }
func ieq(a, b null.Int) bool   { return a.Valid == b.Valid && (!a.Valid || a.Int64 == b.Int64) }

func total(m metrics, pg bool) float64 {
	a := m.avg.ValueOrZero()
	if pg {
		return a
	}
	l := m.loops.ValueOrZero()
	if a == 0 && l > 1000 {
		return 0.0001 * float64(l)
	}
	return a * float64(l)
}

var titles = []string{"Sort: users.name", "Nested loop inner join", "Filter: (users.id > 3)", "Table scan on users", "Index lookup on t2 using idx (id=users.id)", "Limit: 3 row(s)", "Aggregate: count(todos.id)", "Group aggregate: x"}

// ---- MySQL ----

func TestVerif_P11_mysqlMetrics(t *testing.T) {
	r := h.Rand(1101)
	n := h.N(4000)
	for i := 0; i < n; i++ {
		txt, m, bad := metricText(r, false, r.Intn(2) == 0)
		if ambiguous(txt) {
			continue
		}
		nest := r.Intn(6)
		line := strings.Repeat("    ", nest) + strings.Repeat(" ", r.Intn(4)*r.Intn(2)) + "-> " + h.Pick(r, titles) + "  " + txt
		h.Guard(t, line, func() {
			gn, l, err := mmodel.ParseExplainAnalyzeResultLine(line)
			if (err != nil) != bad {
				h.Fail(t, line, "error %v, want an error: %v", err, bad)
			}
			if bad {
				return
			}
			if gn != nest || l.Text != line {
				h.Fail(t, line, "depth %d (want %d), text %q", gn, nest, l.Text)
			}
			if !feq(l.EstimatedInitCost, m.initCost) || !feq(l.EstimatedCost, m.cost) || !ieq(l.EstimatedReturnedRows, m.erows) ||
				!feq(l.ActualTimeFirstRow, m.first) || !feq(l.ActualTimeAvg, m.avg) || !ieq(l.ActualReturnedRows, m.rows) || !ieq(l.ActualLoopCount, m.loops) {
				h.Fail(t, line, "metrics differ from the printed ones: %s", l.String())
			}
			if l.EstimatedTotalTime() != total(m, false) {
				h.Fail(t, line, "estimated total time %v, want %v", l.EstimatedTotalTime(), total(m, false))
			}
		})
	}
	h.Stat(t, n, "MySQL plan lines with random subsets of metrics")
}

func TestVerif_P11_postgresMetrics(t *testing.T) {
	r := h.Rand(1102)
	n := h.N(4000)
	for i := 0; i < n; i++ {
		var lines []string
		var m metrics
		bad := false
		ind := strings.Repeat(" ", r.Intn(9))
		at := r.Intn(3)
		for k := 0; k <= at; k++ {
			switch {
			case k == at:
				txt, mm, b := metricText(r, true, r.Intn(2) == 0)
				m, bad = mm, b
				lines = append(lines, ind+"->  Seq Scan on users  "+txt)
			default:
				lines = append(lines, ind+h.Pick(r, []string{"CTE x", "InitPlan 1 (returns $0)", "SubPlan 2"}))
			}
		}
		if ambiguous(lines[at]) {
			continue
		}
		metricLine := strings.Contains(lines[at], "(cost=")
		for k := r.Intn(3); k > 0; k-- {
			// later lines may look like metrics but the first one counts
			l := ind + "  " + h.Pick(r, []string{"Filter: (id > 3)", "Buffers: shared hit=3", "Sort Key: users.name", "Rows Removed by Filter: 7"})
			if metricLine && r.Intn(3) == 0 {
				l += " (cost=7.25..8.25 rows=77 width=88) (actual time=9.5..10.5 rows=99 loops=11)"
			}
			lines = append(lines, l)
		}
		in := h.J(lines)
		orig := append([]string(nil), lines...)
		h.Guard(t, in, func() {
			sp, l, err := pmodel.ParseExplainAnalyzeResultLineNode(lines)
			if (err != nil) != bad {
				h.Fail(t, in, "error %v, want an error: %v", err, bad)
			}
			if bad {
				return
			}
			if sp != len(ind) || !reflect.DeepEqual(l.Lines, orig) {
				h.Fail(t, in, "indentation %d (want %d), lines %q", sp, len(ind), l.Lines)
			}
			if !feq(l.EstimatedInitCost, m.initCost) || !feq(l.EstimatedCost, m.cost) || !ieq(l.EstimatedReturnedRows, m.erows) || !ieq(l.EstimatedWidth, m.width) ||
				!feq(l.ActualTimeFirstRow, m.first) || !feq(l.ActualTimeAvg, m.avg) || !ieq(l.ActualReturnedRows, m.rows) || !ieq(l.ActualLoopCount, m.loops) {
				h.Fail(t, in, "metrics differ from the printed ones: %s", l.String())
			}
			if l.EstimatedTotalTime() != total(m, true) {
				h.Fail(t, in, "estimated total time %v, want %v", l.EstimatedTotalTime(), total(m, true))
			}
		})
	}
	h.Stat(t, n, "PostgreSQL plan nodes with random subsets of metrics")
}

type flat struct {
	text   string
	parent int
}

func flattenMy(n *mmodel.ExplainAnalyzeTreeNode, parent int, out *[]flat) {
	for _, c := range n.Children {
		k := len(*out)
		*out = append(*out, flat{c.AnalyzeResultLine.Text, parent})
		flattenMy(c, k, out)
	}
}

func TestVerif_P09_mysqlTree(t *testing.T) {
	r := h.Rand(901)
	n := h.N(3000)
	for i := 0; i < n; i++ {
		var lines []string
		var want []flat
		lastAt := map[int]int{-1: -1}
		prev := -1
		bad := false
		deep := 1 + r.Intn(12)
		for k, nl := 0, r.Intn(25); k < nl; k++ {
			if r.Intn(8) == 0 {
				lines = append(lines, "")
				continue
			}
			d := prev + 1
			switch r.Intn(8) {
			case 0, 1:
				d = r.Intn(prev + 2)
			case 2:
				d = 0
			case 3:
				if prev > 0 {
					d = prev - 1
				}
			case 4:
				if prev >= 0 {
					d = prev
				}
			case 5:
				if r.Intn(6) == 0 {
					d = prev + 2 + r.Intn(3)
				}
			}
			if d > deep && d <= prev+1 {
				d = deep
			}
			if d > prev+1 {
				bad = true
			}
			txt, _, _ := metricText(r, false, true)
			l := strings.Repeat("    ", d) + strings.Repeat(" ", r.Intn(4)*r.Intn(2)) + "-> " + h.Pick(r, titles) + " " + strconv.Itoa(k) + "  " + txt
			lines = append(lines, l)
			if !bad {
				want = append(want, flat{l, lastAt[d-1]})
				lastAt[d] = len(want) - 1
				prev = d
			}
		}
		text := strings.Join(lines, "\n")
		fake := &h.FakeDB{Reply: func(q string, _ []driver.Value) (*h.Rows, error) {
			if q != "EXPLAIN ANALYZE FORMAT=TREE SELECT 1" {
				return nil, fmt.Errorf("unexpected query %q", q)
			}
			return &h.Rows{Cols: []string{"EXPLAIN"}, Data: [][]driver.Value{{text}}}, nil
		}}
		h.Guard(t, text, func() {
			tree, err := mservice.NewExplainer(mysql.NewDB(fake.Sqlx("mysql"))).ExplainWithAnalyze("SELECT 1")
			if (err != nil) != bad {
				h.Fail(t, text, "error %v, want an error: %v", err, bad)
			}
			if bad {
				return
			}
			var got []flat
			flattenMy(tree.Root, -1, &got)
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				h.Fail(t, text, "plan tree (text, parent) is %v, want %v", got, want)
			}
		})
	}
	h.Stat(t, n, "MySQL plan texts, up to 25 lines and 12 levels")
}

// ---- PostgreSQL ----

var reArrow = regexp.MustCompile(`-> `)
var reInfo = regexp.MustCompile(`[0-9A-Za-z_]: `)
var reSummary = regexp.MustCompile(`^[0-9A-Za-z_][0-9A-Za-z_ ]+:`)

type pnode struct {
	lines  []string
	parent int
}

func indent(s string) int { return len(s) - len(strings.TrimLeft(s, "\t\n\f\r ")) }

func pgWant(lines []string) ([]pnode, string) {
	end := len(lines)
	for i, l := range lines {
		if reSummary.MatchString(l) {
			end = i
			break
		}
	}
	var out []pnode
	plan := false // previous line names a plan part
	for i, l := range lines[:end] {
		info, arrow := reInfo.MatchString(l), reArrow.MatchString(l)
		if i == 0 || !info && !(arrow && plan) {
			out = append(out, pnode{parent: -1})
		}
		k := len(out) - 1
		out[k].lines = append(out[k].lines, l)
		plan = i > 0 && !info && !arrow
	}
	for k := range out {
		for p := k - 1; p >= 0; p-- {
			if indent(out[p].lines[0]) < indent(out[k].lines[0]) {
				out[k].parent = p
				break
			}
		}
	}
	return out, strings.Join(lines[end:], "\n")
}

func flattenPg(n *pmodel.ExplainAnalyzeTreeNode, parent int, out *[]pnode) {
	for _, c := range n.Children {
		k := len(*out)
		*out = append(*out, pnode{c.AnalyzeResultNode.Lines, parent})
		flattenPg(c, k, out)
	}
}

func TestVerif_P10_postgresTree(t *testing.T) {
	r := h.Rand(1001)
	n := h.N(4000)
	for i := 0; i < n; i++ {
		var lines []string
		lvl := 0
		for k, nl := 0, r.Intn(22); k < nl; k++ {
			ind := strings.Repeat(" ", lvl)
			txt, _, _ := metricText(r, true, true)
			tag := " " + strconv.Itoa(k)
			switch r.Intn(10) {
			case 0, 1, 2, 3:
				switch r.Intn(5) {
				case 0, 1:
					lvl += 2 + r.Intn(5)
				case 2:
					lvl = r.Intn(lvl + 1)
				case 3:
					lvl = lvl / 2
				}
				ind = strings.Repeat(" ", lvl)
				if k == 0 {
					lines = append(lines, ind+"Hash Join"+tag+"  "+txt)
				} else {
					lines = append(lines, ind+"->  Seq Scan on users"+tag+"  "+txt)
				}
			case 4, 5, 6:
				lines = append(lines, ind+"  "+h.Pick(r, []string{"Hash Cond: (a.id = b.id)", "Buffers: shared hit=", "Sort Method: quicksort  Memory: ", "Worker 0:  actual time=1..2", "Filter: ((a -> 'x') = 1)"})+tag)
			case 7:
				if lvl == 0 && r.Intn(2) == 0 {
					lvl = 2
				}
				lines = append(lines, strings.Repeat(" ", lvl)+h.Pick(r, []string{"CTE x", "InitPlan 1 (returns $0)", "SubPlan 2"})+tag)
			case 8:
				lines = append(lines, h.Pick(r, []string{"", "  ", "Sort" + tag + "  " + txt, "Append", "Limit  (cost=1..2 rows=1 width=2)"}))
			case 9:
				if r.Intn(3) == 0 {
					lines = append(lines, h.Pick(r, []string{"Planning Time: 0.1 ms", "Planning:", "JIT:", "Execution Time: 3 ms"}))
				}
			}
		}
		if r.Intn(4) != 0 {
			lines = append(lines, "Planning:", "  Buffers: shared hit=3", "Planning Time: 0.123 ms", "Execution Time: 3 ms")
		}
		want, sum := pgWant(lines)
		orig := append([]string(nil), lines...)
		in := h.J(lines)
		check := func(tree *pmodel.ExplainAnalyzeTree, err error) {
			if err != nil {
				h.Fail(t, in, "error %v", err)
			}
			var got []pnode
			flattenPg(tree.Root, -1, &got)
			if len(got) != len(want) || len(got) > 0 && !reflect.DeepEqual(got, want) {
				h.Fail(t, in, "plan nodes (lines, parent) are %q, want %q", got, want)
			}
			if tree.SummaryText != sum {
				h.Fail(t, in, "summary %q, want %q", tree.SummaryText, sum)
			}
			if !reflect.DeepEqual(orig, lines) {
				h.Fail(t, in, "the plan lines were modified")
			}
		}
		h.Guard(t, in, func() { check(pservice.NewExplainAnalyzeTreeBuilder().Build(lines)) })
		fake := &h.FakeDB{Reply: func(q string, _ []driver.Value) (*h.Rows, error) {
			if q != "EXPLAIN (ANALYZE, BUFFERS) SELECT 1" {
				return nil, fmt.Errorf("unexpected query %q", q)
			}
			res := &h.Rows{Cols: []string{"QUERY PLAN"}}
			for _, l := range lines {
				res.Data = append(res.Data, []driver.Value{l})
			}
			return res, nil
		}}
		h.Guard(t, in, func() {
			check(pservice.NewExplainer(postgres.NewDB(fake.Sqlx("postgres"))).ExplainWithAnalyze("SELECT 1"))
		})
	}
	h.Stat(t, n, "PostgreSQL plans, up to 26 lines")
}
