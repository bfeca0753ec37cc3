// props: P18 P19

package suggest

import (
	"database/sql/driver"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/injection"
	h "github.com/mrasu/GravityR/zz_verifh"
	hv "github.com/mrasu/GravityR/zz_verifv"
)

func vDist() {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/main.js":  {Data: []byte("1")},
		"client/dist/assets/main.css": {Data: []byte("b{}")},
	}
}

const vMyPlan = `-> Nested loop inner join  (cost=5.14 rows=6) (actual time=0.720..3.448 rows=100 loops=1)
    -> Table scan on t  (cost=9.11 rows=63) (actual time=0.072..11.379 rows=65 loops=1)
    -> Filter: (users.email = 'x')  (cost=0.59 rows=0) (actual time=0.000..0.000 rows=0 loops=65)
        -> Single-row index lookup on users using PRIMARY (id=t.user_id)  (cost=0.59 rows=1) (actual time=0.000..0.000 rows=1 loops=65)
-> Other  (cost=1.5 rows=2)
`

var vPgPlan = []string{
	"Gather  (cost=2.21..10.35 rows=100 width=26) (actual time=7.551..7.418 rows=100 loops=1)",
	"  Workers Planned: 2",
	"  ->  Hash Join  (cost=1.21..1.35 rows=42 width=26) (actual time=5.084..7.687 rows=33 loops=3)",
	"        Hash Cond: (t.user_id = users.id)",
	"        ->  Parallel Seq Scan on tasks t  (cost=0.00..9.67 rows=27 width=21) (actual time=0.286..5.485 rows=21 loops=3)",
	"        ->  Hash  (cost=1.20..1.20 rows=1 width=13) (actual time=2.432..2.433 rows=1 loops=3)",
	"              ->  Seq Scan on users  (cost=0.00..1.20 rows=1 width=13) (actual time=1.609..2.416 rows=1 loops=3)",
	"Planning Time: 1.652 ms",
	"Execution Time: 7.036 ms",
}

type vEnv struct {
	pg    bool
	db    *h.FakeDB
	fail  int    // statement to fail, -1 for none
	how   string // how it fails
	plan  []string
	query string
}

var vCols = [][2]string{{"tasks", "description"}, {"tasks", "user_id"}, {"users", "email"}, {"users", "id"}, {"users", "nick name"}}

func vNewEnv(pg bool) *vEnv {
	e := &vEnv{pg: pg, fail: -1}
	e.db = &h.FakeDB{Reply: e.reply}
	return e
}

func (e *vEnv) reply(q string, _ []driver.Value) (*h.Rows, error) {
	rows := e.rows(q)
	if e.fail >= 0 && len(e.db.Log)-1 == e.fail {
		switch {
		case e.how == "late" && rows != nil:
			if len(rows.Data) > 0 {
				rows.Data = rows.Data[:1]
			}
			rows.Err = fmt.Errorf("boom")
			return rows, nil
		case e.how == "type" && rows != nil:
			rows.Cols = append([]string{"surprise"}, rows.Cols...)
			for i := range rows.Data {
				rows.Data[i] = append([]driver.Value{"x"}, rows.Data[i]...)
			}
			return rows, nil
		}
		return nil, fmt.Errorf("boom")
	}
	if rows == nil {
		rows = &h.Rows{}
	}
	return rows, nil
}

// rows is nil for statements without a result.
func (e *vEnv) rows(q string) *h.Rows {
	lq := strings.ToLower(q)
	switch {
	case strings.HasPrefix(lq, "explain"):
		r := &h.Rows{Cols: []string{"EXPLAIN"}}
		for _, l := range e.plan {
			r.Data = append(r.Data, []driver.Value{l})
		}
		return r
	case strings.Contains(lq, "information_schema.columns"):
		r := &h.Rows{Cols: []string{"COLUMN_NAME", "COLUMN_KEY", "TABLE_NAME"}}
		for _, c := range vCols {
			k := ""
			if c[1] == "id" {
				k = "PRI"
			}
			r.Data = append(r.Data, []driver.Value{c[1], k, c[0]})
		}
		return r
	case strings.Contains(lq, "information_schema.statistics"):
		return &h.Rows{Cols: []string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}, Data: [][]driver.Value{{"tasks", "i", "user_id"}, {"users", "i", "email"}, {"users", "i", "id"}}}
	case strings.Contains(lq, "as index_name") || strings.Contains(lq, "column_names"):
		return &h.Rows{Cols: []string{"index_name", "table_name", "column_names"}, Data: [][]driver.Value{{"i1", "tasks", "{user_id}"}, {"i2", "users", "{email,id}"}}}
	case strings.Contains(lq, "pg_class"):
		r := &h.Rows{Cols: []string{"table_name", "column_name", "is_pk"}}
		for _, c := range vCols {
			r.Data = append(r.Data, []driver.Value{c[0], c[1], c[1] == "id"})
		}
		return r
	}
	return nil
}

func (e *vEnv) run(path, query string, examine bool, targets []string) error {
	e.db.Log = nil
	e.query = query
	if e.pg {
		db := postgres.NewDB(e.db.Sqlx("postgres"))
		defer db.Close()
		return (&postgresRunner{query: query, runsExamination: examine, indexTargets: targets}).suggest(path, db, "public")
	}
	db := mysql.NewDB(e.db.Sqlx("mysql"))
	defer db.Close()
	return (&mysqlRunner{query: query, runsExamination: examine, indexTargets: targets}).suggest(path, db, "db")
}

// oracle: suggestions and view of the plan from the layers below
func (e *vEnv) oracle(query string) ([]*dmodel.IndexTarget, interface{}, string, error) {
	f := e.fail
	e.fail = -1
	defer func() { e.fail = f }()
	if e.pg {
		db := postgres.NewDB(e.db.Sqlx("postgres"))
		defer db.Close()
		its, err := pservice.NewIndexSuggester(db, "public").Suggest(query)
		if err != nil {
			return nil, nil, "", err
		}
		tree, err := pservice.NewExplainer(db).ExplainWithAnalyze(query)
		if err != nil {
			return nil, nil, "", err
		}
		return its, hv.PgView(tree), tree.SummaryText, nil
	}
	db := mysql.NewDB(e.db.Sqlx("mysql"))
	defer db.Close()
	its, err := mservice.NewIndexSuggester(db, "db").Suggest(query)
	if err != nil {
		return nil, nil, "", err
	}
	tree, err := mservice.NewExplainer(db).ExplainWithAnalyze(query)
	if err != nil {
		return nil, nil, "", err
	}
	return its, hv.MyView(tree), "", nil
}

var vIdent = regexp.MustCompile("[\"`]([^\"`]*)[\"`]")

// created parses the targets of the DDL received.
func vCreated(log []string) []string {
	var out []string
	for _, q := range log {
		u := strings.ToUpper(q)
		if !strings.Contains(u, "INDEX") || strings.Contains(u, "DROP") || strings.Contains(u, "SELECT") {
			continue
		}
		var ids []string
		for _, m := range vIdent.FindAllStringSubmatch(q, -1) {
			ids = append(ids, m[1])
		}
		if strings.HasPrefix(strings.TrimSpace(u), "CREATE") { // name, table, columns
			ids = ids[1:]
		} else { // table, name, columns
			ids = append(ids[:1:1], ids[2:]...)
		}
		out = append(out, ids[0]+":"+strings.Join(ids[1:], "+"))
	}
	return out
}

func vTarget(v interface{}) string {
	var cs []string
	l, _ := h.At(v, "columns").([]interface{})
	for _, c := range l {
		cs = append(cs, fmt.Sprint(h.At(c, "name")))
	}
	return fmt.Sprint(h.At(v, "tableName")) + ":" + strings.Join(cs, "+")
}

func vTargets(l interface{}, path ...string) []string {
	var out []string
	ls, _ := l.([]interface{})
	for _, v := range ls {
		out = append(out, vTarget(h.At(v, path...)))
	}
	return out
}

func vNames(its []*dmodel.IndexTarget) []string {
	var out []string
	for _, it := range its {
		var cs []string
		for _, c := range it.Columns {
			cs = append(cs, c.Name)
		}
		out = append(out, it.TableName+":"+strings.Join(cs, "+"))
	}
	return out
}

func vSorted(xs []string) []string {
	o := append([]string{}, xs...)
	sort.Strings(o)
	return o
}

var vSafe = regexp.MustCompile(`\A[0-9A-Za-z_]+:[0-9A-Za-z_]+(\+[0-9A-Za-z_]+)*\z`)

func vQueries(pg bool) []string {
	q := "`"
	if pg {
		q = `"`
	}
	return []string{
		"SELECT description FROM users INNER JOIN tasks ON users.id = tasks.user_id WHERE users.email = 'x'",
		"SELECT " + q + "nick name" + q + " FROM users WHERE email = 'x' AND " + q + "nick name" + q + " = 'y'",
		"SELECT " + q + "nick name" + q + " FROM users WHERE " + q + "nick name" + q + " = '</script>\u2028\"'",
		"SELECT id FROM users WHERE id = 3",
	}
}

func vPlan(pg bool) []string {
	if pg {
		return vPgPlan
	}
	return []string{vMyPlan, "ignored"}
}

func vCase(r *rand.Rand, pg bool) (string, bool, []string) {
	q := h.Pick(r, vQueries(pg))
	ex := r.Intn(3) > 0
	var ts []string
	if r.Intn(2) == 0 {
		ts = h.Pick(r, [][]string{{"users:email"}, {"users:id+email", "tasks:user_id"}, {"tasks:a+b+c"}, {"unknown:x", "users:email", "zz:y"}})
	}
	return q, ex, ts
}

func vSuccess(t *testing.T, e *vEnv, path, q string, ex bool, ts []string) {
	in := map[string]interface{}{"postgres": e.pg, "query": q, "examine": ex, "targets": ts}
	its, plan, summary, err := e.oracle(q)
	if err != nil {
		h.Fail(t, in, "layers below fail: %v", err)
	}
	if err := e.run(path, q, ex, ts); err != nil {
		h.Fail(t, in, "run failed: %v", err)
	}
	log := append([]string{}, e.db.Log...)
	created := vCreated(log)
	want := ts
	if len(ts) == 0 {
		want = nil
		for _, s := range vNames(its) {
			if vSafe.MatchString(s) {
				want = append(want, s)
			}
		}
	}
	if !ex {
		want = nil
		for _, l := range log {
			if l == q || strings.Contains(strings.ToUpper(l), "INDEX \"") || strings.Contains(strings.ToUpper(l), "INDEX `") {
				h.Fail(t, in, "without examination %q was executed", l)
			}
		}
	}
	if !reflect.DeepEqual(vSorted(created), vSorted(want)) {
		h.Fail(t, in, "examined %q, want %q", created, want)
	}
	if path == "" {
		return
	}
	rep, err := h.Report(path)
	if err != nil {
		h.Fail(t, in, "report: %v", err)
	}
	key := "mysql"
	if e.pg {
		key = "postgres"
	}
	d := h.At(rep, "suggestData", key)
	if h.At(d, "query") != q {
		h.Fail(t, in, "query shown: %v", h.At(d, "query"))
	}
	if e.pg && h.At(d, "summaryText") != summary {
		h.Fail(t, in, "summary shown: %v, want %q", h.At(d, "summaryText"), summary)
	}
	if got := h.At(d, "analyzeNodes"); h.J(got) != h.J(h.JSON(plan)) {
		h.Fail(t, in, "plan shown: %s\n  want %s", h.J(got), h.J(h.JSON(plan)))
	}
	if got := vTargets(h.At(d, "indexTargets")); !reflect.DeepEqual(vSorted(got), vSorted(vNames(its))) {
		h.Fail(t, in, "suggestions shown: %q, want %q", got, vNames(its))
	}
	er := h.At(d, "examinationResult")
	if (er != nil) != ex {
		h.Fail(t, in, "examination result shown: %v", er)
	}
	if ex {
		if got := vTargets(h.At(er, "indexResults"), "indexTarget"); !reflect.DeepEqual(vSorted(got), vSorted(want)) {
			h.Fail(t, in, "results shown for %q, want %q", got, want)
		}
	}
}

func TestVerif_P19_report(t *testing.T) {
	vDist()
	r := h.Rand(19)
	n := h.N(120)
	for c := 0; c < n; c++ {
		e := vNewEnv(r.Intn(2) == 0)
		e.plan = vPlan(e.pg)
		q, ex, ts := vCase(r, e.pg)
		path := filepath.Join(t.TempDir(), "out.html")
		if r.Intn(8) == 0 {
			path = ""
		}
		h.Guard(t, q, func() { vSuccess(t, e, path, q, ex, ts) })
	}
	h.Stat(t, n, "runs of the mysql and postgres commands, report compared with the layers below")
}

func TestVerif_P18_runs(t *testing.T) {
	vDist()
	r := h.Rand(18)
	runs := 0
	rounds := h.N(6)
	for c := 0; c < rounds; c++ {
		for _, pg := range []bool{false, true} {
			q, ex, ts := vCase(r, pg)
			if c == 0 {
				ex, ts = true, []string{"users:email", "tasks:user_id"}
			}
			if c == 1 {
				ex, ts = true, nil
				q = vQueries(pg)[0]
			}
			e := vNewEnv(pg)
			e.plan = vPlan(pg)
			dir := t.TempDir()
			if err := e.run("", q, ex, ts); err != nil {
				h.Fail(t, q, "run failed: %v", err)
			}
			total := len(e.db.Log)
			for k := 0; k < total; k++ {
				for _, how := range []string{"now", "late", "type"} {
					e.fail, e.how = k, how
					e.db.Log = nil
					isRows := false
					{ // only statements with rows can fail late
						e.fail = -1
						_ = e.run("", q, ex, ts)
						isRows = e.rows(e.db.Log[k]) != nil
						e.fail = k
					}
					if how != "now" && !isRows {
						continue
					}
					path := filepath.Join(dir, fmt.Sprintf("o%d%s.html", k, how))
					before := ""
					if r.Intn(2) == 0 {
						before = "old"
						_ = os.WriteFile(path, []byte(before), 0o600)
					}
					in := map[string]interface{}{"postgres": pg, "query": q, "examine": ex, "targets": ts, "failing statement": k, "kind": how}
					h.Guard(t, in, func() { h.NoReport(t, in, e.run(path, q, ex, ts), path, before) })
					runs++
				}
			}
			e.fail = -1
			// other failures
			bad := func(what string, f func(path string) error) {
				path := filepath.Join(dir, what+".html")
				in := map[string]interface{}{"postgres": pg, "query": q, "examine": ex, "targets": ts, "fault": what}
				h.Guard(t, in, func() { h.NoReport(t, in, f(path), path, "") })
				runs++
			}
			bad("index argument", func(p string) error { return e.run(p, q, ex, []string{"users:email", "users-x:y"}) })
			bad("query", func(p string) error { return e.run(p, "SELEC x FRM", ex, ts) })
			bad("plan", func(p string) error {
				e.plan = []string{"-> x (cost=1.2.3 rows=1)"}
				if pg {
					e.plan = []string{"Seq Scan on users  (cost=0.0.0..1.20 rows=1 width=13) (actual time=1.609..2.416 rows=1 loops=3)"}
				}
				defer func() { e.plan = vPlan(pg) }()
				return e.run(p, q, ex, ts)
			})
			bad("no plan", func(p string) error {
				if pg {
					return fmt.Errorf("not applicable")
				}
				e.plan = nil
				defer func() { e.plan = vPlan(pg) }()
				return e.run(p, q, ex, ts)
			})
			bad("assets", func(p string) error {
				injection.ClientDist = fstest.MapFS{}
				defer vDist()
				return e.run(p, q, ex, ts)
			})
			bad("style", func(p string) error {
				injection.ClientDist = fstest.MapFS{"client/dist/assets/main.js": {Data: []byte("1")}}
				defer vDist()
				return e.run(p, q, ex, ts)
			})
			bad("dir", func(string) error { return e.run(filepath.Join(dir, "no", "such", "dir.html"), q, ex, ts) })
		}
	}
	h.Stat(t, runs, "runs with one failing statement, asset, argument, query, plan or path")
}
