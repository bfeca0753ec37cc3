// props: P02

package zz_p02

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/database/hasura/hservice"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	h "github.com/mrasu/GravityR/zz_verifh"
	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

var words = []string{"a", "id", "user_id", "Name", "x1", "_", "1", "very_long_column_name_number_one", "A_B_9", strings.Repeat("w", 64)}
var hostile = []string{"a`b", "a\"b", "a'b", "a b", "a;DROP TABLE x", "a\n", "a-b", "é", "a,b", "名前", "a\x00", "a\\", "(a)", "`", "\"", "a.b", "a`) ; --", ""}

func ident(r *rand.Rand, bad int) string {
	if bad > 0 && r.Intn(bad) == 0 {
		s := h.Pick(r, hostile)
		if r.Intn(2) == 0 {
			s = h.Pick(r, words) + s + h.Pick(r, words)
		}
		return s
	}
	return h.Pick(r, words)
}

func isWord(s string) bool {
	for _, c := range s {
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

// one word character per character of the name; word characters stay
func safe(s string) string {
	out := ""
	for _, c := range s {
		if isWord(string(c)) {
			out += string(c)
		} else {
			out += "_"
		}
	}
	return out
}

func join(cols []string, q string) string {
	var o []string
	for _, c := range cols {
		o = append(o, q+safe(c)+q)
	}
	return strings.Join(o, ",")
}

type examiner struct {
	name   string
	ex     dservice.IndexExaminer
	texts  func() []string
	create func(n, t string, cs []string) string
	drop   func(n, t string) string
}

func examiners() ([]examiner, func()) {
	mdb, pdb := &h.FakeDB{}, &h.FakeDB{}
	fh := h.NewFakeHasura(func(h.HasuraCall) (int, string) { return 200, `{"result_type":"CommandOk","result":null}` })
	pc := func(n, t string, cs []string) string {
		return `CREATE INDEX "` + n + `" ON "` + t + `" (` + join(cs, `"`) + `)`
	}
	pd := func(n, t string) string { return `DROP INDEX "` + n + `"` }
	take := func(f *h.FakeDB) func() []string {
		return func() []string { l := f.Log; f.Log = nil; return l }
	}
	return []examiner{
		{"mysql", mservice.NewIndexExaminer(mysql.NewDB(mdb.Sqlx("mysql")), "SELECT 1"), take(mdb),
			func(n, t string, cs []string) string {
				return "ALTER TABLE `" + t + "` ADD INDEX `" + n + "` (" + join(cs, "`") + ")"
			}, func(n, t string) string { return "ALTER TABLE `" + t + "` DROP INDEX `" + n + "`" }},
		{"postgres", pservice.NewIndexExaminer(postgres.NewDB(pdb.Sqlx("postgres")), "SELECT 1"), take(pdb), pc, pd},
		{"hasura", hservice.NewIndexExaminer(fh.Client(), "query{a}", nil), func() []string {
			var o []string
			for _, c := range fh.Calls {
				o = append(o, c.SQL())
			}
			fh.Reset()
			return o
		}, pc, pd},
	}, fh.Close
}

func TestVerif_P02_ddl(t *testing.T) {
	exs, done := examiners()
	defer done()
	r := h.Rand(2)
	n := h.N(400)
	for k := 0; k < n; k++ {
		tbl, name := ident(r, 0), ident(r, 0)
		var cols []string
		for i := 1 + r.Intn(4); i > 0; i-- {
			cols = append(cols, ident(r, 3))
		}
		it := dmodel.NewIndexTarget(tbl, cols)
		in := fmt.Sprintf("index %q on %q columns %q", name, tbl, cols)
		for _, e := range exs {
			if e.name == "hasura" && strings.ContainsAny(strings.Join(cols, ""), "\xff") {
				continue
			}
			h.Guard(t, in, func() {
				if err := e.ex.CreateIndex(name, it); err != nil {
					h.Fail(t, in, "%s create: %v", e.name, err)
				}
			})
			if got := e.texts(); len(got) != 1 || got[0] != e.create(name, tbl, cols) {
				h.Fail(t, in, "%s create sent %q, want %q", e.name, got, e.create(name, tbl, cols))
			}
			if err := e.ex.DropIndex(name, it); err != nil {
				h.Fail(t, in, "%s drop: %v", e.name, err)
			}
			if got := e.texts(); len(got) != 1 || got[0] != e.drop(name, tbl) {
				h.Fail(t, in, "%s drop sent %q, want %q", e.name, got, e.drop(name, tbl))
			}
		}
	}
	h.Stat(t, n, "random targets, three dialects")
}

func TestVerif_P02_safe(t *testing.T) {
	r := h.Rand(22)
	n := h.N(3000)
	for k := 0; k < n; k++ {
		tbl := ident(r, 6)
		var cols []string
		for i := r.Intn(5); i > 0; i-- {
			cols = append(cols, ident(r, 8))
		}
		want := isWord(tbl) && tbl != ""
		for _, c := range cols {
			want = want && isWord(c)
		}
		in := fmt.Sprintf("table %q columns %q", tbl, cols)
		h.Guard(t, in, func() {
			if got := dmodel.NewIndexTarget(tbl, cols).IsSafe(); got != want {
				h.Fail(t, in, "IsSafe=%v, want %v", got, want)
			}
		})
	}
	h.Stat(t, n, "random targets")
}

type recorder struct {
	names []string
	drops []string
}

func (e *recorder) Execute() (int64, error) { return 1, nil }
func (e *recorder) CreateIndex(n string, _ *dmodel.IndexTarget) error {
	e.names = append(e.names, n)
	return nil
}
func (e *recorder) DropIndex(n string, _ *dmodel.IndexTarget) error {
	e.drops = append(e.drops, n)
	return nil
}

func TestVerif_P02_names(t *testing.T) {
	r := h.Rand(23)
	n := h.N(500)
	for k := 0; k < n; k++ {
		var its []*dmodel.IndexTarget
		var all [][]string
		for j := 1 + r.Intn(3); j > 0; j-- {
			var cols []string
			for i := 1 + r.Intn(5); i > 0; i-- {
				cols = append(cols, ident(r, 4))
			}
			all = append(all, cols)
			its = append(its, dmodel.NewIndexTarget("t", cols))
		}
		e := &recorder{}
		in := fmt.Sprintf("columns %q", all)
		h.Guard(t, in, func() {
			if _, err := dservice.NewIndexEfficiencyExaminer(e).Run(its); err != nil {
				h.Fail(t, in, "%v", err)
			}
		})
		for _, nm := range e.names {
			if nm == "" || !isWord(nm) || len(nm) > 63 {
				h.Fail(t, in, "generated index name %q", nm)
			}
		}
	}
	h.Stat(t, n, "random target lists")
}
