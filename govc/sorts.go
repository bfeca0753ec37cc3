package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
)

// Sort is the text of an SMT-LIB sort.
type Sort = string

// Term is an SMT-LIB term with its sort.
type Term struct {
	S    string
	Sort Sort
}

func tm(s string, so Sort) *Term { return &Term{s, so} }

var tTrue = tm("true", "Bool")
var tFalse = tm("false", "Bool")

func app(so Sort, f string, args ...*Term) *Term {
	if len(args) == 0 {
		return tm(f, so)
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(f)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.S)
	}
	b.WriteByte(')')
	return tm(b.String(), so)
}

func intT(n int64) *Term {
	if n < 0 {
		return tm(fmt.Sprintf("(- %d)", -n), "Int")
	}
	return tm(fmt.Sprint(n), "Int")
}

func not(a *Term) *Term {
	switch a.S {
	case "true":
		return tFalse
	case "false":
		return tTrue
	}
	if strings.HasPrefix(a.S, "(not ") {
		return tm(a.S[5:len(a.S)-1], "Bool")
	}
	return app("Bool", "not", a)
}

func and(as ...*Term) *Term {
	var r []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if a.S == "true" || seen[a.S] {
			continue
		}
		if a.S == "false" {
			return tFalse
		}
		seen[a.S] = true
		r = append(r, a)
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return app("Bool", "and", r...)
}

func or(as ...*Term) *Term {
	var r []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if a.S == "false" || seen[a.S] {
			continue
		}
		if a.S == "true" {
			return tTrue
		}
		seen[a.S] = true
		r = append(r, a)
	}
	if len(r) == 0 {
		return tFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	return app("Bool", "or", r...)
}

func implies(a, b *Term) *Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return tTrue
	}
	return app("Bool", "=>", a, b)
}

func eq(a, b *Term) *Term {
	if a.S == b.S {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(unsupported("equality between sorts %s and %s (%s = %s)", a.Sort, b.Sort, a.S, b.S))
	}
	return app("Bool", "=", a, b)
}

func ite(c, a, b *Term) *Term {
	if c.S == "true" || a.S == b.S {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.Sort != b.Sort {
		panic(unsupported("ite between sorts %s and %s", a.Sort, b.Sort))
	}
	if a.Sort == "Bool" {
		if a.S == "true" && b.S == "false" {
			return c
		}
		if a.S == "false" && b.S == "true" {
			return not(c)
		}
	}
	if strings.HasPrefix(a.S, "(mk_") && strings.HasPrefix(b.S, "(mk_"+a.Sort+" ") {
		x, y := splitArgs(a.S), splitArgs(b.S)
		if len(x) == len(y) {
			out := "(mk_" + a.Sort
			for i := range x {
				if x[i] == y[i] {
					out += " " + x[i]
				} else {
					out += " (ite " + c.S + " " + x[i] + " " + y[i] + ")"
				}
			}
			return tm(out+")", a.Sort)
		}
	}
	return app(a.Sort, "ite", c, a, b)
}

func arrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrElem splits "(Array K V)".
func arrParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic(unsupported("not an array sort: %s", s))
	}
	body := s[7 : len(s)-1]
	d := 0
	for i, c := range body {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return body[:i], body[i+1:]
		}
	}
	panic("bad array sort " + s)
}

func sel(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	return app(v, "select", a, i)
}
func sto(a, i, v *Term) *Term { return app(a.Sort, "store", a, i, v) }

type unsupportedErr struct{ msg string }

func (u *unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...interface{}) *unsupportedErr {
	return &unsupportedErr{fmt.Sprintf(f, a...)}
}

// ---- Go type -> sort -------------------------------------------------

type dtField struct {
	name string
	sort Sort
	typ  types.Type
}
type datatype struct {
	name   string
	fields []dtField
	idx    int
}

type SortTable struct {
	opaque    map[string]bool // declared uninterpreted sorts
	opaqueSeq []string
	dts       map[string]*datatype
	order     []string // declaration order of datatypes
	strTheory bool
	tids      map[string]int
	tidNames  []string
}

func newSortTable(strTheory bool) *SortTable {
	st := &SortTable{opaque: map[string]bool{}, dts: map[string]*datatype{}, strTheory: strTheory, tids: map[string]int{}}
	st.opq("F64")
	if !strTheory {
		st.opq("Str")
	}
	return st
}

// sorts met so far, by name: a sort that reaches a table only through the
// write set of a contract is declared from here
var (
	sortsMu   sync.Mutex
	allDts    = map[string]*datatype{}
	allOpaque = map[string]bool{}
)

func regDt(d *datatype) {
	sortsMu.Lock()
	allDts[d.name] = d
	sortsMu.Unlock()
}

func (st *SortTable) importSort(s Sort) {
	for _, w := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		if _, ok := st.dts[w]; ok || st.opaque[w] {
			continue
		}
		sortsMu.Lock()
		d, o := allDts[w], allOpaque[w]
		sortsMu.Unlock()
		if o {
			st.opq(w)
		}
		if d != nil {
			c := &datatype{name: d.name, fields: d.fields}
			st.dts[w] = c
			for _, f := range d.fields {
				st.importSort(f.sort)
			}
			st.order = append(st.order, w)
		}
	}
}

func (st *SortTable) opq(n string) Sort {
	if !st.opaque[n] {
		sortsMu.Lock()
		allOpaque[n] = true
		sortsMu.Unlock()
		st.opaque[n] = true
		st.opaqueSeq = append(st.opaqueSeq, n)
	}
	return n
}

func (st *SortTable) Str() Sort {
	if st.strTheory {
		return "String"
	}
	return "Str"
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' {
			b.WriteRune(c)
		} else if c == '*' {
			b.WriteString("p.")
		} else if c == '[' || c == ']' || c == '(' || c == ')' || c == ' ' || c == ',' || c == '{' || c == '}' || c == ';' {
			b.WriteString("_")
		} else if c == '/' {
			b.WriteString(".")
		} else {
			b.WriteString(fmt.Sprintf("u%x", c))
		}
	}
	return b.String()
}

func shortPath(p string) string {
	return strings.TrimPrefix(p, "github.com/mrasu/GravityR/")
}

func typeKey(t types.Type) string {
	return mangle(types.TypeString(t, func(p *types.Package) string { return shortPath(p.Path()) }))
}

func (st *SortTable) sliceOf(e Sort, et types.Type) Sort {
	n := "Slice_" + mangle(e)
	if _, ok := st.dts[n]; !ok {
		st.dts[n] = &datatype{name: n, fields: []dtField{{"slen", "Int", types.Typ[types.Int]}, {"sarr", arrSort("Int", e), nil}, {"snil", "Bool", nil}}}
		st.order = append(st.order, n)
		regDt(st.dts[n])
	}
	return n
}

var opaqueNamed = map[string]bool{
	"time.Time": true, "time.Location": true, "sync.Mutex": true,
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// S maps a Go type to an SMT sort.
func (st *SortTable) S(t types.Type) Sort {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.TypeParam:
		return st.opq("TP_" + mangle(u.Obj().Name()))
	case *types.Named:
		if s, ok := u.Underlying().(*types.Struct); ok {
			return st.structSort(u, s)
		}
		return st.S(u.Underlying())
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsFloat != 0:
			return "F64"
		case i&types.IsString != 0:
			return st.Str()
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return "Int"
		}
		return st.opq("B_" + mangle(u.Name()))
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return "Int"
	case *types.Slice:
		return st.sliceOf(st.S(u.Elem()), u.Elem())
	case *types.Array:
		return arrSort("Int", st.S(u.Elem()))
	case *types.Struct:
		return st.structSort(nil, u)
	}
	panic(unsupported("type %s", t))
}

func (st *SortTable) structSort(n *types.Named, s *types.Struct) Sort {
	var key string
	if n != nil {
		key = typeKey(n)
		full := types.TypeString(n, nil)
		if opaqueNamed[full] {
			return st.opq("O_" + key)
		}
		if s.NumFields() == 3 && s.Field(0).Name() == "wall" && s.Field(0).Pkg() != nil && s.Field(0).Pkg().Path() == "time" {
			return st.opq("O_time.Time") // a named type over time.Time
		}
	} else {
		key = "anon_" + mangle(types.TypeString(s, func(p *types.Package) string { return shortPath(p.Path()) }))
	}
	name := "St_" + key
	if _, ok := st.dts[name]; ok {
		return name
	}
	dt := &datatype{name: name}
	st.dts[name] = dt
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		var fs Sort
		if n != nil && !strings.HasPrefix(pkgPath(n), "github.com/mrasu/GravityR") && !f.Exported() {
			fs = "Int" // unexported field of a dependency: abstract
		} else {
			fs = st.S(f.Type())
		}
		dt.fields = append(dt.fields, dtField{f.Name(), fs, f.Type()})
	}
	st.order = append(st.order, name)
	regDt(dt)
	return name
}

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

func (dt *datatype) ctor() string         { return "mk_" + dt.name }
func (dt *datatype) getter(i int) string  { return dt.name + "." + dt.fields[i].name }
func (st *SortTable) dt(s Sort) *datatype { return st.dts[s] }

func (st *SortTable) field(v *Term, i int) *Term {
	dt := st.dts[v.Sort]
	if dt == nil {
		panic(unsupported("field of non-struct sort %s", v.Sort))
	}
	// simplify projection of a constructor
	if strings.HasPrefix(v.S, "("+dt.ctor()+" ") {
		args := splitArgs(v.S)
		if len(args) == len(dt.fields) {
			return tm(args[i], dt.fields[i].sort)
		}
	}
	return app(dt.fields[i].sort, dt.getter(i), v)
}

func splitArgs(s string) []string {
	// "(f a b c)" -> [a b c]
	body := s[1 : len(s)-1]
	var out []string
	d, start := 0, 0
	inStr := false
	for i := 0; i < len(body); i++ {
		c := body[i]
		if inStr {
			if c == '"' {
				inStr = false
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				out = append(out, body[start:i])
				start = i + 1
			}
		}
	}
	out = append(out, body[start:])
	return out[1:]
}

func (st *SortTable) withField(v *Term, i int, x *Term) *Term {
	dt := st.dts[v.Sort]
	args := make([]*Term, len(dt.fields))
	for k := range dt.fields {
		if k == i {
			args[k] = x
		} else {
			args[k] = st.field(v, k)
		}
	}
	return app(v.Sort, dt.ctor(), args...)
}

func (st *SortTable) mk(s Sort, args ...*Term) *Term {
	return app(s, st.dts[s].ctor(), args...)
}

func (st *SortTable) slen(v *Term) *Term { return st.field(v, 0) }
func (st *SortTable) sarr(v *Term) *Term { return st.field(v, 1) }
func (st *SortTable) snil(v *Term) *Term { return st.field(v, 2) }

func (st *SortTable) isSlice(s Sort) bool { return strings.HasPrefix(s, "Slice_") }

func (st *SortTable) decls() string {
	var b strings.Builder
	for _, o := range st.opaqueSeq {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", o)
	}
	// datatypes may be mutually nested only through arrays; declare in dependency order
	done := map[string]bool{}
	var emit func(n string)
	emit = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		dt := st.dts[n]
		for _, f := range dt.fields {
			for o := range st.dts {
				if o != n && sortMentions(f.sort, o) {
					emit(o)
				}
			}
		}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", n, dt.ctor())
		for i, f := range dt.fields {
			fmt.Fprintf(&b, " (%s %s)", dt.getter(i), f.sort)
		}
		b.WriteString("))))\n")
	}
	names := append([]string{}, st.order...)
	sort.Strings(names)
	for _, n := range names {
		emit(n)
	}
	return b.String()
}

func sortMentions(s Sort, o string) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		if f == o {
			return true
		}
	}
	return false
}

func (st *SortTable) tid(t types.Type) int {
	k := typeKey(t)
	if id, ok := st.tids[k]; ok {
		return id
	}
	id := len(st.tids) + 1
	st.tids[k] = id
	st.tidNames = append(st.tidNames, k)
	return id
}
