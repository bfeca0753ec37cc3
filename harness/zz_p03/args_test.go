// props: P03

package zz_p03

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	h "github.com/mrasu/GravityR/zz_verifh"
)

func isWord(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return s != ""
}

// oracle: word ":" word ("+" word)*
func read(s string) (string, []string, bool) {
	i := strings.IndexByte(s, ':')
	if i < 0 || !isWord(s[:i]) {
		return "", nil, false
	}
	cols := strings.Split(s[i+1:], "+")
	for _, c := range cols {
		if !isWord(c) {
			return "", nil, false
		}
	}
	return s[:i], cols, true
}

func same(it *dmodel.IndexTarget, tbl string, cols []string) bool {
	if it == nil || it.TableName != tbl || len(it.Columns) != len(cols) {
		return false
	}
	for i, c := range it.Columns {
		if c == nil || c.Name != cols[i] {
			return false
		}
	}
	return true
}

func check(t *testing.T, s string) {
	t.Helper()
	in := fmt.Sprintf("%q", s)
	tbl, cols, ok := read(s)
	h.Guard(t, in, func() {
		it, err := dmodel.NewIndexTargetFromText(s)
		if (err == nil) != ok {
			h.Fail(t, in, "accepted=%v, want %v", err == nil, ok)
		}
		if ok && !same(it, tbl, cols) {
			h.Fail(t, in, "read as %s, want %q %q", h.J(it), tbl, cols)
		}
	})
}

func TestVerif_P03_exhaustive(t *testing.T) {
	alpha := []string{"a", "B", ":", "+", "\n", " ", "_"}
	n := 0
	var rec func(p string, k int)
	rec = func(p string, k int) {
		check(t, p)
		n++
		if k == 0 {
			return
		}
		for _, c := range alpha {
			rec(p+c, k-1)
		}
	}
	rec("", 6)
	h.Stat(t, n, "all texts up to 6 symbols over "+fmt.Sprintf("%q", alpha))
}

var atoms = []string{"users", "id", "a", "Name_1", "0", "_", "é", "", " ", "a b", "`", "x;y", "\n", "\t", "a:b", "日本", "A", "\x80", "-", "."}

func text(r *rand.Rand) string {
	w := func() string {
		if r.Intn(8) > 0 {
			return atoms[r.Intn(6)]
		}
		return h.Pick(r, atoms)
	}
	s := w() + ":"
	for i := r.Intn(6); i >= 0; i-- {
		s += w()
		if i > 0 {
			s += "+"
		}
	}
	if r.Intn(8) == 0 {
		s += h.Pick(r, []string{"+", "\n", "\nusers:id", "; DROP", ":x", " "})
	}
	if r.Intn(12) == 0 {
		s = h.Pick(r, []string{"\n", " ", ":", "x\n", "+"}) + s
	}
	return s
}

func TestVerif_P03_random(t *testing.T) {
	r := h.Rand(3)
	n := h.N(20000)
	for k := 0; k < n; k++ {
		check(t, text(r))
	}
	h.Stat(t, n, "random texts")
}

func TestVerif_P03_lists(t *testing.T) {
	r := h.Rand(33)
	n := h.N(4000)
	for k := 0; k < n; k++ {
		var ts []string
		for i := r.Intn(5); i > 0; i-- {
			s := text(r)
			if _, _, ok := read(s); !ok && r.Intn(4) > 0 {
				s = "t" + fmt.Sprint(i) + ":a+b"
			}
			ts = append(ts, s)
		}
		want := true
		for _, s := range ts {
			_, _, ok := read(s)
			want = want && ok
		}
		in := fmt.Sprintf("%q", ts)
		h.Guard(t, in, func() {
			its, err := dmodel.NewIndexTargetsFromTexts(ts)
			if (err == nil) != want {
				h.Fail(t, in, "accepted=%v, want %v", err == nil, want)
			}
			if !want {
				return
			}
			if len(its) != len(ts) {
				h.Fail(t, in, "%d targets for %d texts", len(its), len(ts))
			}
			for i, it := range its {
				tbl, cols, _ := read(ts[i])
				if !same(it, tbl, cols) {
					h.Fail(t, in, "target %d read as %s", i, h.J(it))
				}
			}
		})
	}
	h.Stat(t, n, "random lists")
}
