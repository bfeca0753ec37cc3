package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Addr, *Closure, *Iface, Tuple, *MapIter.
type Val interface{}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	bound Val // receiver for bound methods
	term  *Term
}

type Iface struct {
	val  Val
	typ  types.Type
	term *Term
}

type Tuple []Val

type MapIter struct {
	id   string
	keys *Term // Array Int K
	n    *Term
	pos  string // comp key of position
	ref  *Term
	mt   *types.Map
	str  *Term
}

type step struct {
	kind  int // 0 struct field, 1 array index, 2 slice index
	field int
	idx   *Term
}

// Addr is an address the executor tracks symbolically.
type Addr struct {
	cell string // state component holding the base value
	comp string // heap component (Array Int S), with ref
	ref  *Term
	val  *Term // read-only base
	path []step
	// write-through: element store into a slice that was loaded from here
	origin *Addr
	omap   *mapLoc
}

type mapLoc struct {
	ref, key *Term
	mt       *types.Map
}

func (a *Addr) with(s step) *Addr {
	b := *a
	b.path = append(append([]step{}, a.path...), s)
	return &b
}

// State maps component names to current terms. Absent = initial value.
type State struct {
	m map[string]*Term
}

func (s *State) clone() *State {
	n := &State{m: make(map[string]*Term, len(s.m)+4)}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

type Obl struct {
	Name   string
	Desc   string
	prefix int
	goal   *Term
	guard  *Term
	res    *SolveResult
	prop   string
	fn     string
	extra  []string // extra asserted hypotheses
	vac    bool
	using  []string // labels of the invariants the proof may use (nil: all)
}

type VC struct {
	P        *Program
	st       *SortTable
	items    []string
	n, qn    int
	funs     map[string]bool
	pre      []string // function declarations and axioms
	obls     []*Obl
	quiet    int
	dry      int
	inits    map[string]*Term
	root     *Contract
	rootFn   *ssa.Function
	rootEnv  map[string]SpecVal
	rootRecs map[string]*recInst
	prop     string
	alloc0   *Term
	stack    []*ssa.Function
	useLog   map[string]bool // contracts used at call sites
	inlined  map[string]bool
	externs  map[string]bool // externals with default (havoc) contract
	models   map[string]bool
	nopanic  bool
	attempt  int
	invMS    int
	loopLog  []string
	dropped  []string
	invDone  int
	solveMS  int64
	solverN  map[string]int
	mu       sync.Mutex
	bound    bool // evaluating under a quantifier: no definitions allowed
	axDone   bool
	axioms   []string
	preState *State
	compType map[string]compType
	compSort map[string]Sort
	strNames map[string]string
	strID    map[string]int
	tparams  map[string]types.Type

	closures   map[string]*Closure
	svOrigin   map[string]*Addr
	svMap      map[string]*mapLoc
	svType     map[string]types.Type
	cellInfo   map[string]cellMeta
	cellElems  map[string]map[int64]Val
	sliceElems map[string][]Val
	ifaceOf    map[string]*Iface
	lookupLoc  map[string]*mapLoc
	regexOf    map[string]string
	iterByPos  map[string]*MapIter
	cats       map[string][]*Term
	notes      map[string]bool
	cellAlias  map[string]*SliceVar
	deadCand   map[string]bool
	keepDead   bool
	modTmp     map[string]map[string]Sort
	site       ssa.Instruction
	litDone    map[string]bool
	litOf      map[string]string
	reNames    map[string]string
	reLits     map[string]string
}

type cellMeta struct {
	name string
	typ  types.Type
}

func (P *Program) newVC(ct *Contract, fn *ssa.Function, prop string) *VC {
	vc := &VC{P: P, root: ct, rootFn: fn, prop: prop, funs: map[string]bool{}, inits: map[string]*Term{}, useLog: map[string]bool{},
		inlined: map[string]bool{}, externs: map[string]bool{}, models: map[string]bool{}, solverN: map[string]int{},
		compType: map[string]compType{}, compSort: map[string]Sort{}, strNames: map[string]string{}, strID: map[string]int{},
		closures: map[string]*Closure{}, svOrigin: map[string]*Addr{}, svMap: map[string]*mapLoc{}, svType: map[string]types.Type{},
		cellInfo: map[string]cellMeta{}, cellElems: map[string]map[int64]Val{}, sliceElems: map[string][]Val{}, ifaceOf: map[string]*Iface{},
		lookupLoc: map[string]*mapLoc{}, regexOf: map[string]string{}, iterByPos: map[string]*MapIter{}, cats: map[string][]*Term{}, notes: map[string]bool{}, cellAlias: map[string]*SliceVar{}, deadCand: map[string]bool{}, reNames: map[string]string{}, reLits: map[string]string{},
		tparams: map[string]types.Type{}, invMS: 6000, attempt: 1}
	vc.st = newSortTable(ct != nil && ct.strs)
	vc.pre = append(vc.pre, "(declare-const alloc@0 Int)", "(assert (<= 0 alloc@0))")
	vc.alloc0 = tm("alloc@0", "Int")
	vc.preState = &State{m: map[string]*Term{}}
	if fn != nil {
		for _, tp := range typeParamsOf(fn) {
			vc.tparams[tp.Obj().Name()] = tp
		}
	}
	return vc
}

func typeParamsOf(fn *ssa.Function) []*types.TypeParam {
	var out []*types.TypeParam
	if l := fn.TypeParams(); l != nil {
		for i := 0; i < l.Len(); i++ {
			out = append(out, l.At(i))
		}
	}
	return out
}

func (vc *VC) strName(s string) string {
	if n, ok := vc.strNames[s]; ok {
		return n
	}
	id := len(vc.strNames)
	n := fmt.Sprintf("S%d_%s", id, mangle(trunc(s, 12)))
	vc.strNames[s] = n
	vc.strID[n] = id
	return n
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (vc *VC) fresh(prefix string, so Sort) *Term {
	if vc.bound {
		panic(unsupported("fresh symbol needed under a quantifier (%s)", prefix))
	}
	vc.n++
	name := fmt.Sprintf("%s!%d", mangle(prefix), vc.n)
	vc.items = append(vc.items, fmt.Sprintf("(declare-const %s %s)", name, so))
	return tm(name, so)
}

func (vc *VC) define(prefix string, t *Term) *Term {
	if vc.bound || len(t.S) < 24 || !strings.ContainsAny(t.S, " (") {
		return t
	}
	if strings.HasPrefix(t.S, "(mk_") {
		// keep constructors visible so that projections simplify
		dt := vc.st.dt(t.Sort)
		args := splitArgs(t.S)
		if dt != nil && len(args) == len(dt.fields) {
			ts := make([]*Term, len(args))
			for i, a := range args {
				ts[i] = vc.define(prefix, tm(a, dt.fields[i].sort))
			}
			return vc.st.mk(t.Sort, ts...)
		}
	}
	vc.n++
	name := fmt.Sprintf("%s!%d", mangle(prefix), vc.n)
	if t.Sort != "Bool" {
		// a constant, so that quantifier patterns over it stay patterns
		vc.items = append(vc.items, fmt.Sprintf("(declare-const %s %s)", name, t.Sort), fmt.Sprintf("(assert (= %s %s))", name, t.S))
	} else {
		vc.items = append(vc.items, fmt.Sprintf("(define-fun %s () %s %s)", name, t.Sort, t.S))
	}
	return tm(name, t.Sort)
}

func (vc *VC) assume(guard, fact *Term) {
	f := implies(guard, fact)
	if f.S == "true" {
		return
	}
	if vc.bound {
		return // facts about bound terms are dropped (weaker, still sound)
	}
	vc.items = append(vc.items, "(assert "+stripHints(f.S)+")")
}

// stripHints replaces the always-true (hint_S t) by true: a hint only puts a
// term into a goal, for the solver to instantiate with.
func stripHints(s string) string {
	for {
		i := strings.Index(s, "(hint_")
		if i < 0 {
			return s
		}
		d, j := 0, i
		for ; j < len(s); j++ {
			if s[j] == '(' {
				d++
			} else if s[j] == ')' {
				if d--; d == 0 {
					break
				}
			}
		}
		s = s[:i] + "true" + s[j+1:]
	}
}

func (vc *VC) fun(name string, ret Sort, args ...Sort) string {
	if !vc.funs[name] {
		vc.funs[name] = true
		vc.pre = append(vc.pre, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), ret))
	}
	return name
}

func (vc *VC) axiom(key, ax string) {
	if !vc.funs["axiom:"+key] {
		vc.funs["axiom:"+key] = true
		vc.pre = append(vc.pre, "(assert "+ax+")")
	}
}

func (vc *VC) call(name string, ret Sort, args ...*Term) *Term {
	so := make([]Sort, len(args))
	for i, a := range args {
		so[i] = a.Sort
	}
	vc.fun(name, ret, so...)
	return app(ret, name, args...)
}

func (vc *VC) tagActive(tags []string) bool {
	if len(tags) == 0 || vc.prop == "" {
		return true
	}
	for _, t := range tags {
		if t == vc.prop {
			return true
		}
	}
	return false
}

func (vc *VC) obligTagged(tags []string, name, desc string, guard, goal *Term) {
	if vc.tagActive(tags) {
		vc.oblig(name, desc, guard, goal)
	}
}

func (vc *VC) oblig(name, desc string, guard, goal *Term) {
	if vc.quiet > 0 {
		return
	}
	if vc.bound {
		return
	}
	g := implies(guard, goal)
	if g.S == "true" {
		vc.obls = append(vc.obls, &Obl{Name: name, Desc: desc, prefix: len(vc.items), goal: tTrue, guard: guard, fn: vc.rootFn.String()})
		return
	}
	vc.obls = append(vc.obls, &Obl{Name: name, Desc: desc, prefix: len(vc.items), goal: goal, guard: guard, fn: vc.rootFn.String()})
}

// ---- state access -----------------------------------------------------

func (vc *VC) compInit(key string, so Sort) *Term {
	if t, ok := vc.inits[key]; ok {
		return t
	}
	name := mangle(key) + "@0"
	vc.pre = append(vc.pre, fmt.Sprintf("(declare-const %s %s)", name, so))
	t := tm(name, so)
	vc.inits[key] = t
	if strings.HasPrefix(key, "H.") || strings.HasPrefix(key, "P.") || strings.HasPrefix(key, "M.") {
		for _, ax := range vc.closed(key, t, vc.alloc0) {
			vc.pre = append(vc.pre, "(assert "+ax+")")
		}
	}
	return t
}

func (vc *VC) closed(key string, t, alloc *Term) []string {
	ct, ok := vc.compType[key]
	if !ok {
		return nil
	}
	var out []string
	switch ct.kind {
	case "field", "cell":
		cell := fmt.Sprintf("(select %s r?)", t.S)
		fs := vc.typeFacts(tm(cell, mustElem(t.Sort)), ct.typ, alloc, 0)
		for _, f := range fs {
			// reference bounds hold for the contents of objects allocated so far
			out = append(out, fmt.Sprintf("(forall ((r? Int)) (! (=> (and (<= 0 r?) (<= r? %s)) %s) :pattern (%s)))", alloc.S, f, cell))
		}
	case "mval":
		ks, _ := arrParts(mustElem(t.Sort))
		cell := fmt.Sprintf("(select (select %s r?) k?)", t.S)
		_, vs := arrParts(mustElem(t.Sort))
		fs := vc.typeFacts(tm(cell, vs), ct.typ, alloc, 0)
		for _, f := range fs {
			out = append(out, fmt.Sprintf("(forall ((r? Int) (k? %s)) (! (=> (and (<= 0 r?) (<= r? %s)) %s) :pattern (%s)))", ks, alloc.S, f, cell))
		}
	case "mlen":
		out = append(out, fmt.Sprintf("(= 0 (select %s 0))", t.S))
		out = append(out, fmt.Sprintf("(forall ((r? Int)) (! (<= 0 (select %s r?)) :pattern ((select %s r?))))", t.S, t.S))
	case "mdom":
		ks0, _ := arrParts(mustElem(t.Sort))
		out = append(out, fmt.Sprintf("(forall ((k? %s)) (! (not (select (select %s 0) k?)) :pattern ((select (select %s 0) k?))))", ks0, t.S, t.S))
		if ct.typ != nil { // reference keys
			ks, _ := arrParts(mustElem(t.Sort))
			fs := vc.typeFacts(tm("k?", ks), ct.typ, alloc, 1)
			for _, f := range fs {
				out = append(out, fmt.Sprintf("(forall ((r? Int) (k? %s)) (! (=> (select (select %s r?) k?) %s) :pattern ((select (select %s r?) k?))))", ks, t.S, f, t.S))
			}
		}
	}
	return out
}

func mustElem(s Sort) Sort { _, v := arrParts(s); return v }

// typeFacts lists facts every value of Go type t satisfies.
func (vc *VC) typeFacts(v *Term, t types.Type, alloc *Term, depth int) []string {
	if t == nil || depth > 2 {
		return nil
	}
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := t.(*types.TypeParam); ok {
			return nil
		}
		switch u.Kind() {
		case types.Uint64, types.Uint, types.Uintptr:
			return []string{fmt.Sprintf("(and (<= 0 %s) (<= %s 18446744073709551615))", v.S, v.S)}
		case types.Uint8:
			return []string{fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", v.S, v.S)}
		case types.Uint32:
			return []string{fmt.Sprintf("(and (<= 0 %s) (<= %s 4294967295))", v.S, v.S)}
		case types.Uint16:
			return []string{fmt.Sprintf("(and (<= 0 %s) (<= %s 65535))", v.S, v.S)}
		case types.Int64, types.Int:
			return []string{fmt.Sprintf("(and (<= (- 9223372036854775808) %s) (<= %s 9223372036854775807))", v.S, v.S)}
		case types.Int32:
			return []string{fmt.Sprintf("(and (<= (- 2147483648) %s) (<= %s 2147483647))", v.S, v.S)}
		}
	case *types.Pointer, *types.Map:
		return []string{fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", v.S, v.S, alloc.S)}
	case *types.Slice:
		if !vc.st.isSlice(v.Sort) {
			return nil
		}
		n, a, nl := vc.st.slen(v), vc.st.sarr(v), vc.st.snil(v)
		out := []string{fmt.Sprintf("(<= 0 %s)", n.S), fmt.Sprintf("(=> %s (= %s 0))", nl.S, n.S)}
		q := fmt.Sprintf("i%d?", depth)
		cell := tm(fmt.Sprintf("(select %s %s)", a.S, q), mustElem(a.Sort))
		for _, f := range vc.typeFacts(cell, u.Elem(), alloc, depth+1) {
			out = append(out, fmt.Sprintf("(forall ((%s Int)) (! %s :pattern (%s)))", q, f, cell.S))
		}
		return out
	case *types.Struct:
		dt := vc.st.dt(v.Sort)
		if dt == nil {
			return nil
		}
		var out []string
		for i, f := range dt.fields {
			if f.typ != nil && f.sort == sortOrEmpty(vc.st, f.typ) {
				out = append(out, vc.typeFacts(vc.st.field(v, i), f.typ, alloc, depth+1)...)
			}
		}
		return out
	}
	return nil
}

func sortOrEmpty(st *SortTable, t types.Type) (s Sort) {
	defer func() {
		if recover() != nil {
			s = ""
		}
	}()
	return st.S(t)
}

func (vc *VC) get(s *State, key string, so Sort) *Term {
	if t, ok := s.m[key]; ok {
		return t
	}
	return vc.compInit(key, so)
}

func (vc *VC) set(s *State, key string, v *Term) {
	s.m[key] = vc.define(key, v)
}

func (vc *VC) alloc(s *State) *Term {
	if t, ok := s.m["alloc"]; ok {
		return t
	}
	return vc.alloc0
}

type compType struct {
	kind string
	typ  types.Type
}

// fieldComp returns the heap component for field i of struct type t.
func (vc *VC) fieldComp(t types.Type, i int) (string, Sort, types.Type) {
	t = types.Unalias(t)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("field of %s", t))
	}
	f := s.Field(i)
	key := "H." + typeKey(t) + "." + f.Name()
	if f.Name() == "_" {
		key += fmt.Sprint(i)
	}
	so := vc.fieldSort(t, i)
	vc.compType[key] = compType{"field", f.Type()}
	vc.compSort[key] = arrSort("Int", so)
	return key, arrSort("Int", so), f.Type()
}

func (vc *VC) fieldSort(t types.Type, i int) Sort {
	if dt := vc.st.dt(vc.st.S(t)); dt != nil {
		return dt.fields[i].sort
	}
	return vc.st.S(t.Underlying().(*types.Struct).Field(i).Type())
}

func (vc *VC) cellComp(t types.Type) (string, Sort) {
	so := vc.st.S(t)
	key := "P." + mangle(so)
	if _, ok := vc.compType[key]; !ok {
		vc.compType[key] = compType{"cell", t}
	}
	vc.compSort[key] = arrSort("Int", so)
	return key, arrSort("Int", so)
}

func (vc *VC) mapComps(mt *types.Map) (dom, val, ln string, ds, vs, ls Sort) {
	ks, es := vc.st.S(mt.Key()), vc.st.S(mt.Elem())
	k := mangle(ks) + "." + typeKey(mt.Elem())
	dom, val, ln = "M.dom."+k, "M.val."+k, "M.len."+k
	ds, vs, ls = arrSort("Int", arrSort(ks, "Bool")), arrSort("Int", arrSort(ks, es)), arrSort("Int", "Int")
	vc.compType[val] = compType{"mval", mt.Elem()}
	vc.compType[ln] = compType{"mlen", nil}
	var kt types.Type
	switch mt.Key().Underlying().(type) {
	case *types.Pointer, *types.Map:
		kt = mt.Key()
	}
	vc.compType[dom] = compType{"mdom", kt}
	vc.compSort[dom], vc.compSort[val], vc.compSort[ln] = ds, vs, ls
	return
}

// newRef allocates a fresh reference.
func (vc *VC) newRef(s *State, hint string) *Term {
	a := vc.alloc(s)
	r := vc.define("ref_"+hint, app("Int", "+", a, intT(1)))
	s.m["alloc"] = r
	return r
}

// zero value of a Go type
func (vc *VC) zero(t types.Type) *Term {
	so := vc.st.S(t)
	return vc.zeroOf(so)
}

func (vc *VC) zeroOf(so Sort) *Term {
	switch so {
	case "Int":
		return intT(0)
	case "Bool":
		return tFalse
	case "String":
		return tm(`""`, "String")
	case "Str":
		return vc.strConst("")
	case "F64":
		vc.fun("f_zero", "F64")
		return tm("f_zero", "F64")
	}
	if strings.HasPrefix(so, "(Array") {
		if e := mustElem(so); e != "Int" && e != "Bool" && !strings.HasPrefix(e, "(Array") {
			n := "zarr_" + mangle(so)
			ks, _ := arrParts(so)
			z := vc.zeroOf(e)
			vc.fun(n, so)
			vc.axiom(n, fmt.Sprintf("(forall ((i? %s)) (! (= (select %s i?) %s) :pattern ((select %s i?))))", ks, n, z.S, n))
			return tm(n, so)
		}
		return tm(fmt.Sprintf("((as const %s) %s)", so, vc.zeroOf(mustElem(so)).S), so)
	}
	if vc.st.isSlice(so) {
		// a nil slice; contents beyond the length are never observed
		dt := vc.st.dt(so)
		n := "zeroarr_" + mangle(so)
		vc.fun(n, dt.fields[1].sort)
		return vc.st.mk(so, intT(0), tm(n, dt.fields[1].sort), tTrue)
	}
	if dt := vc.st.dt(so); dt != nil {
		var args []*Term
		for _, f := range dt.fields {
			args = append(args, vc.zeroOf(f.sort))
		}
		return vc.st.mk(so, args...)
	}
	n := "zero_" + mangle(so)
	vc.fun(n, so)
	return tm(n, so)
}

func (vc *VC) strConst(s string) *Term {
	if vc.litOf == nil {
		vc.litOf = map[string]string{}
	}
	if vc.st.strTheory {
		vc.litOf[smtString(s)] = s
		return tm(smtString(s), "String")
	}
	n := vc.strName(s)
	vc.litOf[n] = s
	if !vc.funs[n] {
		// all string constants are pairwise distinct; lengths are known
		vc.fun("str_id", "Int", "Str")
		vc.fun("str_len", "Int", "Str")
		vc.fun(n, "Str")
		vc.pre = append(vc.pre, fmt.Sprintf("(assert (= (str_id %s) %d))", n, vc.strID[n]))
		vc.pre = append(vc.pre, fmt.Sprintf("(assert (= (str_len %s) %d))", n, len(s)))
		if s == "" {
			vc.axiom("strlen0", "(forall ((s? Str)) (! (and (>= (str_len s?) 0) (=> (= (str_len s?) 0) (= s? "+n+"))) :pattern ((str_len s?))))")
		}
	}
	return tm(n, "Str")
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range []byte(s) {
		if r == '"' {
			b.WriteString(`""`)
		} else if r < 32 || r > 126 || r == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", r)
		} else {
			b.WriteByte(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (vc *VC) assumeType(guard, v *Term, t types.Type, s *State) {
	for _, f := range vc.typeFacts(v, t, vc.alloc(s), 0) {
		vc.assume(tTrue, tm(f, "Bool"))
	}
}

// ---- addresses ---------------------------------------------------------

func (vc *VC) baseVal(s *State, a *Addr) *Term {
	switch {
	case a.val != nil:
		return a.val
	case a.cell != "":
		t, ok := s.m[a.cell]
		if !ok {
			panic(unsupported("read of uninitialised cell %s", a.cell))
		}
		return t
	default:
		so := vc.compSort[a.comp]
		return sel(vc.get(s, a.comp, so), a.ref)
	}
}

func (vc *VC) proj(v *Term, p step) *Term {
	switch p.kind {
	case 0:
		return vc.st.field(v, p.field)
	case 1:
		return sel(v, p.idx)
	default:
		return sel(vc.st.sarr(v), p.idx)
	}
}

func (vc *VC) upd(v *Term, path []step, x *Term) *Term {
	if len(path) == 0 {
		return x
	}
	p := path[0]
	inner := vc.upd(vc.proj(v, p), path[1:], x)
	switch p.kind {
	case 0:
		return vc.st.withField(v, p.field, inner)
	case 1:
		return sto(v, p.idx, inner)
	default:
		return vc.st.mk(v.Sort, vc.st.slen(v), sto(vc.st.sarr(v), p.idx, inner), vc.st.snil(v))
	}
}

func (vc *VC) load(s *State, a *Addr) *Term {
	v := vc.baseVal(s, a)
	for _, p := range a.path {
		v = vc.proj(v, p)
	}
	return v
}

func (vc *VC) store(s *State, a *Addr, x *Term) {
	if a.val != nil {
		panic(unsupported("store through a slice value of unknown origin"))
	}
	nv := vc.upd(vc.baseVal(s, a), a.path, x)
	if a.cell != "" {
		vc.set(s, a.cell, nv)
		if a.origin != nil {
			vc.storeContent(s, a.origin, s.m[a.cell])
		}
		if a.omap != nil {
			vc.mapStore(s, a.omap.ref, a.omap.mt, a.omap.key, s.m[a.cell])
		}
		if len(a.path) > 0 && a.path[0].kind == 2 {
			vc.aliasWrite(s, a.cell)
		}
		return
	}
	so := vc.compSort[a.comp]
	vc.set(s, a.comp, sto(vc.get(s, a.comp, so), a.ref, nv))
}

// storeContent writes a slice whose elements changed back to the place it was read from.
func (vc *VC) storeContent(s *State, a *Addr, v *Term) {
	vc.store(s, a, v)
	if a.cell != "" && len(a.path) == 0 {
		vc.aliasWrite(s, a.cell)
	}
}

// aliasWrite propagates an element update of a variable to the slice variable it was assigned from.
func (vc *VC) aliasWrite(s *State, cell string) {
	if sv, ok := vc.cellAlias[cell]; ok && sv.cell != cell {
		if _, live := s.m[sv.cell]; live {
			vc.storeContent(s, vc.svAddr(sv), s.m[cell])
		}
	}
}

// ---- maps ----------------------------------------------------------------

func (vc *VC) mapGet(s *State, ref *Term, mt *types.Map, k *Term) (v, ok *Term) {
	dom, val, _, ds, vs, _ := vc.mapComps(mt)
	ok = sel(sel(vc.get(s, dom, ds), ref), k)
	raw := sel(sel(vc.get(s, val, vs), ref), k)
	return raw, ok
}

func (vc *VC) mapStore(s *State, ref *Term, mt *types.Map, k, v *Term) {
	dom, val, ln, ds, vs, ls := vc.mapComps(mt)
	d := vc.get(s, dom, ds)
	vv := vc.get(s, val, vs)
	l := vc.get(s, ln, ls)
	had := sel(sel(d, ref), k)
	vc.set(s, ln, sto(l, ref, ite(had, sel(l, ref), app("Int", "+", sel(l, ref), intT(1)))))
	vc.set(s, dom, sto(d, ref, sto(sel(d, ref), k, tTrue)))
	vc.set(s, val, sto(vv, ref, sto(sel(vv, ref), k, v)))
}

func (vc *VC) mapDelete(s *State, ref *Term, mt *types.Map, k *Term) {
	dom, _, ln, ds, _, ls := vc.mapComps(mt)
	d := vc.get(s, dom, ds)
	l := vc.get(s, ln, ls)
	had := sel(sel(d, ref), k)
	vc.set(s, ln, sto(l, ref, ite(had, app("Int", "-", sel(l, ref), intT(1)), sel(l, ref))))
	vc.set(s, dom, sto(d, ref, sto(sel(d, ref), k, tFalse)))
}

func (vc *VC) mapNew(s *State, mt *types.Map) *Term {
	dom, _, ln, ds, _, ls := vc.mapComps(mt)
	r := vc.newRef(s, "map")
	d := vc.get(s, dom, ds)
	l := vc.get(s, ln, ls)
	ks := vc.st.S(mt.Key())
	vc.set(s, dom, sto(d, r, tm(fmt.Sprintf("((as const (Array %s Bool)) false)", ks), arrSort(ks, "Bool"))))
	vc.set(s, ln, sto(l, r, intT(0)))
	return r
}
