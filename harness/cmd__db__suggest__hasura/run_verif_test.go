// props: P18 P19

package hasura

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/mrasu/GravityR/database/hasura/hservice"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/injection"
	h "github.com/mrasu/GravityR/zz_verifh"
	hv "github.com/mrasu/GravityR/zz_verifv"
)

func vDist() {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/main.js":  {Data: []byte("1")},
		"client/dist/assets/main.css": {Data: []byte("b{}")},
	}
}

var vPlan = []string{
	"Gather  (cost=2.21..10.35 rows=100 width=26)",
	"  Workers Planned: 2",
	"  ->  Hash Join  (cost=1.21..1.35 rows=42 width=26)",
	"        Hash Cond: (t.user_id = users.id)",
	"        ->  Parallel Seq Scan on tasks t  (cost=0.00..9.67 rows=27 width=21)",
	"  ->  Seq Scan on users  (cost=0.00..1.20 rows=1 width=13)",
}

var vSQLs = []string{
	`SELECT description FROM users INNER JOIN tasks ON users.id = tasks.user_id WHERE users.email = 'x'`,
	`SELECT "nick name" FROM users WHERE email = 'x' AND "nick name" = 'y'`,
	`SELECT "nick name" FROM users WHERE "nick name" = 'y'`,
	`SELECT id FROM users WHERE id = 3`,
}

type vEnv struct {
	f    *h.FakeHasura
	n    int
	fail int
	how  string
	sql  string
	plan []string
	// number of statements Explain answers with
	count int
}

func vNew() *vEnv {
	e := &vEnv{fail: -1, plan: vPlan, count: 1}
	e.f = h.NewFakeHasura(func(c h.HasuraCall) (int, string) {
		k := e.n
		e.n++
		if k == e.fail {
			switch e.how {
			case "closed":
				return -1, ""
			case "json":
				return 200, "<html>"
			case "choices":
				return 300, e.body(c)
			case "gql":
				if c.Path == "/v1/graphql" {
					return 200, `{"errors":[{"message":"boom"}]}`
				}
			}
			return 500, `{"error":"boom","result":[["a","b","c"]]}`
		}
		return 200, e.body(c)
	})
	return e
}

func (e *vEnv) body(c h.HasuraCall) string {
	var v interface{}
	switch {
	case c.Path == "/v1/graphql/explain":
		var l []interface{}
		for i := 0; i < e.count; i++ {
			l = append(l, map[string]interface{}{"field": "f", "sql": e.sql, "plan": e.plan})
		}
		if l == nil {
			return "[]"
		}
		v = l
	case c.Path == "/v1/graphql":
		v = map[string]interface{}{"data": map[string]interface{}{}}
	case strings.Contains(c.SQL(), "column_names"):
		v = map[string]interface{}{"result_type": "TuplesOk", "result": [][]string{{"table_name", "column_names"}, {"tasks", "{user_id}"}, {"users", "{email,id}"}}}
	case strings.Contains(c.SQL(), "pg_class"):
		v = map[string]interface{}{"result_type": "TuplesOk", "result": [][]string{{"table_name", "column_name", "is_pk"},
			{"tasks", "description", "f"}, {"tasks", "user_id", "f"}, {"users", "email", "f"}, {"users", "id", "t"}, {"users", "nick name", "f"}}}
	default:
		v = map[string]interface{}{"result_type": "CommandOk", "result": nil}
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (e *vEnv) run(path string, ex bool, ts []string) error {
	e.n = 0
	e.f.Reset()
	return (&postgresRunner{query: "query { users { id } }", jsonVariables: `{"a": 1}`, runsExamination: ex, indexTargets: ts}).suggest(path, e.f.Client())
}

var vIdent = regexp.MustCompile(`"([^"]*)"`)

func vCreated(calls []h.HasuraCall) []string {
	var out []string
	for _, c := range calls {
		u := strings.ToUpper(c.SQL())
		if !strings.HasPrefix(strings.TrimSpace(u), "CREATE") {
			continue
		}
		var ids []string
		for _, m := range vIdent.FindAllStringSubmatch(c.SQL(), -1) {
			ids = append(ids, m[1])
		}
		out = append(out, ids[1]+":"+strings.Join(ids[2:], "+"))
	}
	return out
}

func vTargets(l interface{}, path ...string) []string {
	var out []string
	ls, _ := l.([]interface{})
	for _, v := range ls {
		v = h.At(v, path...)
		var cs []string
		cl, _ := h.At(v, "columns").([]interface{})
		for _, c := range cl {
			cs = append(cs, fmt.Sprint(h.At(c, "name")))
		}
		out = append(out, fmt.Sprint(h.At(v, "tableName"))+":"+strings.Join(cs, "+"))
	}
	return out
}

func vSorted(xs []string) []string {
	o := append([]string{}, xs...)
	sort.Strings(o)
	return o
}

var vSafe = regexp.MustCompile(`\A[0-9A-Za-z_]+:[0-9A-Za-z_]+(\+[0-9A-Za-z_]+)*\z`)

var vTs = [][]string{nil, nil, {"users:email"}, {"users:id+email", "tasks:user_id"}, {"unknown:x", "users:email"}}

func TestVerif_P19_report(t *testing.T) {
	vDist()
	r := h.Rand(191)
	e := vNew()
	defer e.f.Close()
	n := h.N(60)
	for c := 0; c < n; c++ {
		e.sql = h.Pick(r, vSQLs)
		ex := r.Intn(3) > 0
		ts := h.Pick(r, vTs)
		in := map[string]interface{}{"sql": e.sql, "examine": ex, "targets": ts}
		h.Guard(t, in, func() {
			its, err := hservice.NewIndexSuggester(e.f.Client()).Suggest(e.sql)
			if err != nil {
				h.Fail(t, in, "layers below fail: %v", err)
			}
			var names, want []string
			for _, it := range its {
				var cs []string
				for _, c := range it.Columns {
					cs = append(cs, c.Name)
				}
				s := it.TableName + ":" + strings.Join(cs, "+")
				names = append(names, s)
				if vSafe.MatchString(s) {
					want = append(want, s)
				}
			}
			if len(ts) > 0 {
				want = ts
			}
			if !ex {
				want = nil
			}
			tree, err := pservice.NewExplainAnalyzeTreeBuilder().Build(e.plan)
			if err != nil {
				h.Fail(t, in, "layers below fail: %v", err)
			}
			path := filepath.Join(t.TempDir(), "out.html")
			if err := e.run(path, ex, ts); err != nil {
				h.Fail(t, in, "run failed: %v", err)
			}
			if got := vCreated(e.f.Calls); !reflect.DeepEqual(vSorted(got), vSorted(want)) {
				h.Fail(t, in, "examined %q, want %q", got, want)
			}
			if !ex {
				for _, c := range e.f.Calls {
					if c.Path == "/v1/graphql" {
						h.Fail(t, in, "the query was executed without examination")
					}
				}
			}
			rep, err := h.Report(path)
			if err != nil {
				h.Fail(t, in, "report: %v", err)
			}
			d := h.At(rep, "suggestData", "hasura", "postgres")
			if h.At(d, "query") != e.sql || h.At(d, "gql") != "query { users { id } }" || h.At(d, "summaryText") != tree.SummaryText {
				h.Fail(t, in, "texts shown: %s", h.J(d))
			}
			if got, w := h.J(h.At(d, "analyzeNodes")), h.J(h.JSON(hv.PgView(tree))); got != w {
				h.Fail(t, in, "plan shown: %s\n  want %s", got, w)
			}
			if got := vTargets(h.At(d, "indexTargets")); !reflect.DeepEqual(vSorted(got), vSorted(names)) {
				h.Fail(t, in, "suggestions shown: %q, want %q", got, names)
			}
			er := h.At(d, "examinationResult")
			if (er != nil) != ex {
				h.Fail(t, in, "examination result shown: %v", er)
			}
			if got := vTargets(h.At(er, "indexResults"), "indexTarget"); ex && !reflect.DeepEqual(vSorted(got), vSorted(want)) {
				h.Fail(t, in, "results shown for %q, want %q", got, want)
			}
		})
	}
	h.Stat(t, n, "runs of the hasura command, report compared with the layers below")
}

func TestVerif_P18_runs(t *testing.T) {
	vDist()
	r := h.Rand(181)
	e := vNew()
	defer e.f.Close()
	runs := 0
	for c := 0; c < h.N(5); c++ {
		e.sql = vSQLs[c%len(vSQLs)]
		ex := c < 2 || r.Intn(2) == 0
		ts := vTs[(c+3)%len(vTs)]
		e.fail = -1
		dir := t.TempDir()
		if err := e.run("", ex, ts); err != nil {
			h.Fail(t, e.sql, "run failed: %v", err)
		}
		total := e.n
		for k := 0; k < total; k++ {
			for _, how := range []string{"status", "choices", "json", "closed", "gql"} {
				e.fail, e.how = k, how
				path := filepath.Join(dir, fmt.Sprintf("o%d%s.html", k, how))
				before := ""
				if r.Intn(2) == 0 {
					before = "old"
					_ = os.WriteFile(path, []byte(before), 0o600)
				}
				in := map[string]interface{}{"sql": e.sql, "examine": ex, "targets": ts, "failing request": k, "kind": how}
				h.Guard(t, in, func() { h.NoReport(t, in, e.run(path, ex, ts), path, before) })
				runs++
			}
		}
		e.fail = -1
		bad := func(what string, f func(path string) error) {
			path := filepath.Join(dir, what+".html")
			in := map[string]interface{}{"sql": e.sql, "examine": ex, "targets": ts, "fault": what}
			h.Guard(t, in, func() { h.NoReport(t, in, f(path), path, "") })
			runs++
		}
		bad("index argument", func(p string) error { return e.run(p, ex, []string{"users:email", "users-x:y"}) })
		bad("two queries", func(p string) error { e.count = 2; defer func() { e.count = 1 }(); return e.run(p, ex, ts) })
		bad("no query", func(p string) error { e.count = 0; defer func() { e.count = 1 }(); return e.run(p, ex, ts) })
		bad("sql", func(p string) error { s := e.sql; e.sql = "SELEC x FRM"; defer func() { e.sql = s }(); return e.run(p, ex, ts) })
		bad("plan", func(p string) error {
			e.plan = []string{"Seq Scan on users  (cost=0.0.0..1.20 rows=1 width=13)"}
			defer func() { e.plan = vPlan }()
			return e.run(p, ex, ts)
		})
		bad("assets", func(p string) error { injection.ClientDist = fstest.MapFS{}; defer vDist(); return e.run(p, ex, ts) })
		bad("dir", func(string) error { return e.run(filepath.Join(dir, "no", "such", "dir.html"), ex, ts) })
	}
	var _ *hasura.Client
	h.Stat(t, runs, "runs with one failing request, argument, plan, asset or path")
}
