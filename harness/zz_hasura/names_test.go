// props: P20

package zz_hasura

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/infra/hasura"
	h "github.com/mrasu/GravityR/zz_verifh"
)

var word = regexp.MustCompile(`\A[0-9A-Za-z_]+\z`)
var lit = regexp.MustCompile(`'[^']*'`)

func name(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return h.Pick(r, []string{"", "a b", "a'b", "' OR 1=1 --", "users\n", "\nusers", "a-b", "a.b", "a;b", "é", "ユーザ", "a\x00", "?", "$1", "a\"b", "a,b", "users'", "\\", "a\nb\n", "users\r", " users", "users ", "users\t"})
	case 1:
		b := make([]byte, 1+r.Intn(4))
		for i := range b {
			b[i] = "aZ_9'? \n;é"[r.Intn(11)]
		}
		return string(b)
	}
	return h.Pick(r, []string{"users", "Tasks", "_x", "9t", "public", "a_b_c", "nspname", "r", "pg_class", "USERS", "t1"})
}

// skeleton is the text with its literals blanked.
func skeleton(q string) string { return lit.ReplaceAllString(q, "''") }

func plain(i int) string { return fmt.Sprintf("zz%d", i) }

func TestVerif_P20_names(t *testing.T) {
	r := h.Rand(20)
	f := h.NewFakeHasura(func(h.HasuraCall) (int, string) { return 200, `{"result_type":"TuplesOk","result":[["a","b","c"]]}` })
	defer f.Close()
	cli := f.Client()
	run := func(idx bool, schema string, tables []string) error {
		f.Reset()
		var err error
		if idx {
			_, err = cli.GetIndexes(schema, tables)
		} else {
			_, err = cli.GetTableColumns(schema, tables)
		}
		return err
	}
	base := map[string]string{}
	n := h.N(3000)
	for c := 0; c < n; c++ {
		idx := r.Intn(2) == 0
		schema := name(r)
		tables := make([]string, 1+r.Intn(4))
		good := word.MatchString(schema)
		for i := range tables {
			tables[i] = name(r)
			good = good && word.MatchString(tables[i])
		}
		if r.Intn(2) == 0 { // a single bad name among good ones
			good = true
			schema = "public"
			for i := range tables {
				tables[i] = plain(i)
			}
			k := r.Intn(len(tables) + 1)
			x := name(r)
			if k == len(tables) {
				schema = x
			} else {
				tables[k] = x
			}
			good = word.MatchString(x)
		}
		in := map[string]interface{}{"index": idx, "schema": schema, "tables": tables}
		h.Guard(t, in, func() {
			key := fmt.Sprint(idx, len(tables))
			if base[key] == "" {
				var ps []string
				for i := range tables {
					ps = append(ps, plain(i))
				}
				if err := run(idx, "zzs", ps); err != nil || len(f.Calls) != 1 {
					h.Fail(t, in, "plain names gave %d requests, %v", len(f.Calls), err)
				}
				base[key] = skeleton(f.Calls[0].SQL())
			}
			err := run(idx, schema, tables)
			if !good {
				if err == nil || len(f.Calls) != 0 {
					h.Fail(t, in, "an unsafe name gave %d requests, error %v", len(f.Calls), err)
				}
				return
			}
			if err != nil {
				h.Fail(t, in, "word-only names rejected: %v", err)
			}
			if len(f.Calls) != 1 {
				h.Fail(t, in, "%d requests", len(f.Calls))
			}
			call := f.Calls[0]
			args, _ := call.Body["args"].(map[string]interface{})
			if call.Path != "/v2/query" || call.Body["type"] != "run_sql" || args["read_only"] != true {
				h.Fail(t, in, "request %s not a read-only run_sql", h.J(call))
			}
			q := call.SQL()
			if skeleton(q) != base[key] {
				h.Fail(t, in, "names changed the statement: %s", q)
			}
			ls := lit.FindAllString(q, -1)
			want := []string{"'" + schema + "'"}
			for _, x := range tables {
				want = append(want, "'"+x+"'")
			}
			if !strings.Contains(strings.Join(ls, "\x00")+"\x00", strings.Join(want, "\x00")+"\x00") {
				h.Fail(t, in, "literals %q do not hold %q", ls, want)
			}
		})
	}
	h.Stat(t, n, "schema and table names, safe and unsafe")
}

func ident(r *rand.Rand) string {
	return h.Pick(r, []string{"id", "name", "a b", "x,y", "q\"z", "{a}", "", "NULL", "ü", "t", "f", "lower(name)", "b\\c"})
}

func pgArray(cols []string) string {
	var ps []string
	for _, c := range cols {
		ps = append(ps, `"`+strings.ReplaceAll(strings.ReplaceAll(c, `\`, `\\`), `"`, `\"`)+`"`)
	}
	return "{" + strings.Join(ps, ",") + "}"
}

func TestVerif_P20_rows(t *testing.T) {
	r := h.Rand(201)
	var rows [][]string
	status := 200
	body := ""
	f := h.NewFakeHasura(func(h.HasuraCall) (int, string) {
		if body != "" || status != 200 {
			return status, body
		}
		b, _ := json.Marshal(map[string]interface{}{"result_type": "TuplesOk", "result": rows})
		return 200, string(b)
	})
	defer f.Close()
	cli := f.Client()
	n := h.N(1200)
	for c := 0; c < n; c++ {
		k := r.Intn(6)
		var wc []*hasura.ColumnInfo
		rows = [][]string{{"table_name", "column_name", "is_pk"}}
		if r.Intn(4) == 0 {
			rows[0] = []string{"t", "t", "t"}
		}
		for i := 0; i < k; i++ {
			row := []string{ident(r), ident(r), h.Pick(r, []string{"t", "f", "true", "", "T"})}
			rows = append(rows, row)
			wc = append(wc, &hasura.ColumnInfo{TableName: row[0], ColumnName: row[1], IsPK: row[2] == "t"})
		}
		h.Guard(t, rows, func() {
			got, err := cli.GetTableColumns("public", []string{"users"})
			if err != nil || h.J(got) != h.J(wc) {
				h.Fail(t, rows, "columns %s, %v; want %s", h.J(got), err, h.J(wc))
			}
		})

		var wi []*hasura.IndexInfo
		rows = [][]string{{"table_name", "column_names"}}
		bad := false
		for i := 0; i < k; i++ {
			cols := make([]string, 1+r.Intn(3))
			for j := range cols {
				cols[j] = ident(r)
			}
			row := []string{ident(r), pgArray(cols)}
			if r.Intn(15) == 0 {
				row[1] = h.Pick(r, []string{"", "x", "{a", "{\"a}"})
				bad = true
			}
			rows = append(rows, row)
			wi = append(wi, &hasura.IndexInfo{TableName: row[0], Columns: cols})
		}
		h.Guard(t, rows, func() {
			got, err := cli.GetIndexes("public", []string{"users"})
			if bad {
				if err == nil {
					h.Fail(t, rows, "an unreadable column list gave %s", h.J(got))
				}
				return
			}
			if err != nil || h.J(got) != h.J(wi) {
				h.Fail(t, rows, "indexes %s, %v; want %s", h.J(got), err, h.J(wi))
			}
		})

		status = h.Pick(r, []int{400, 401, 404, 500, 503, 201, 204, 301})
		body = h.Pick(r, []string{"", `{"error":"x"}`, `{"result":[["a","b","c"],["t","c","t"]]}`})
		if status == 204 {
			body = ""
		}
		h.Guard(t, status, func() {
			if got, err := cli.GetTableColumns("public", []string{"users"}); err == nil {
				h.Fail(t, status, "HTTP status %d gave columns %s", status, h.J(got))
			}
			if got, err := cli.GetIndexes("public", []string{"users"}); err == nil {
				h.Fail(t, status, "HTTP status %d gave indexes %s", status, h.J(got))
			}
		})
		status, body = 200, ""
	}
	h.Stat(t, n, "catalog replies, unreadable lists and HTTP failures")
}
