package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- syntax ----------

type Node struct {
	k    string // ident num str bin un field index call quant cond cmp nil true false old
	s    string
	kids []*Node
	vars []VarDecl
	pats [][]*Node
}

type VarDecl struct {
	name string
	typ  string
}

type Clause struct {
	label string
	tags  []string
	n     *Node
	vars  []VarDecl // for inv
	src   string
	file  string
	using []string // when given: the only invariants the proof of this clause may use
	loop  string // optional function-name substring the invariant is limited to
}

type PureFn struct {
	name   string
	params []VarDecl
	ret    string
	body   *Node // nil: uninterpreted
	rec    bool
}

type Contract struct {
	name      string
	iface     bool
	params    []string
	results   []string
	props     []string
	requires  []*Clause
	ensures   []*Clause
	assumes   []*Clause // trusted facts about results (dependencies)
	invs      []*Clause
	recs      []*PureFn
	lets      []*Clause
	modifies  []string
	frame     bool
	writes    []string
	nopanic   []string // tags; ["*"] all
	strs      bool
	trusted   bool
	inline    bool
	pure      bool
	file      string
	note      string
	fpure     bool
	timeout   int
	hints     []*Clause
	asserts   []*Clause
	lean      []string    // properties checked without inferred heap frames of loops
	elsewhere []string    // properties that use this contract while another property's check discharges it
	main      []string    // properties the untagged clauses are for (all if empty)
	sets      []*Clause   // ghost assignments at exit: label is the ghost variable
	made      [][2]string // ghost logs of the objects this function allocates, by type
}

type Spec struct {
	bounded   [][2]string
	ghosts    map[string]string
	pures     map[string]*PureFn
	axioms    []*Clause
	lemmas    []*Clause
	contracts map[string]*Contract
	order     []string
	texts     map[string]string
	pools     map[string][]*Clause // named invariant pools attached to functions by name (inlined bodies)
}

type tok struct {
	k, s string
}

func lexExpr(src string) ([]tok, error) {
	var out []tok
	rs := []rune(src)
	i := 0
	isId := func(r rune) bool { return r == '_' || r == '$' || unicode.IsLetter(r) || unicode.IsDigit(r) }
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, tok{"num", string(rs[i:j])})
			i = j
		case isId(c):
			j := i
			for j < len(rs) && isId(rs[j]) {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' && j+1 < len(rs) {
					j++
					switch rs[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteRune(rs[j])
					}
				} else {
					b.WriteRune(rs[j])
				}
				j++
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		default:
			two := ""
			for _, o := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "::"} {
				if strings.HasPrefix(string(rs[i:]), o) {
					two = o
					break
				}
			}
			if two == "" {
				two = string(c)
			}
			out = append(out, tok{"op", two})
			i += len([]rune(two))
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t   []tok
	i   int
	src string
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s
}
func (p *parser) isKw(s string) bool { return p.t[p.i].k == "id" && p.t[p.i].s == s }
func (p *parser) eat(s string) {
	if !p.is(s) {
		panic(fmt.Errorf("spec: expected %q, got %q in: %s", s, p.peek().s, p.src))
	}
	p.i++
}

func parseExpr(src string) *Node {
	t, err := lexExpr(src)
	if err != nil {
		panic(err)
	}
	p := &parser{t: t, src: src}
	n := p.expr()
	if p.peek().k != "eof" {
		panic(fmt.Errorf("spec: trailing %q in: %s", p.peek().s, src))
	}
	return n
}

func (p *parser) expr() *Node {
	if p.isKw("forall") || p.isKw("exists") {
		q := p.next().s
		n := &Node{k: "quant", s: q}
		for {
			name := p.next().s
			ty := p.typ()
			n.vars = append(n.vars, VarDecl{name, ty})
			if p.is(",") {
				p.i++
				continue
			}
			break
		}
		p.eat("::")
		for p.is("{") {
			p.i++
			var pat []*Node
			for {
				pat = append(pat, p.impl())
				if p.is(",") {
					p.i++
					continue
				}
				break
			}
			p.eat("}")
			n.pats = append(n.pats, pat)
		}
		n.kids = []*Node{p.expr()}
		return n
	}
	return p.iff()
}

func (p *parser) typ() string {
	var b strings.Builder
	for p.is("*") || p.is("[") || p.is("]") {
		if p.is("[") {
			b.WriteString("[")
			p.i++
			if p.peek().k == "id" {
				b.WriteString(p.next().s)
			}
			p.eat("]")
			b.WriteString("]")
			continue
		}
		b.WriteString(p.next().s)
	}
	b.WriteString(p.next().s)
	for p.is(".") {
		p.i++
		b.WriteString("." + p.next().s)
	}
	return b.String()
}

func (p *parser) iff() *Node {
	l := p.impl()
	for p.is("<==>") {
		p.i++
		r := p.implOrQ()
		l = &Node{k: "bin", s: "<==>", kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) implOrQ() *Node {
	if p.isKw("forall") || p.isKw("exists") {
		return p.expr()
	}
	return p.impl()
}

func (p *parser) impl() *Node {
	l := p.cond()
	if p.is("==>") {
		p.i++
		r := p.implOrQ()
		return &Node{k: "bin", s: "==>", kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) cond() *Node {
	c := p.orE()
	if p.is("?") {
		p.i++
		a := p.cond()
		p.eat(":")
		b := p.cond()
		return &Node{k: "cond", kids: []*Node{c, a, b}}
	}
	return c
}

func (p *parser) orE() *Node {
	l := p.andE()
	for p.is("||") {
		p.i++
		r := p.andOrQ()
		l = &Node{k: "bin", s: "||", kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) andOrQ() *Node {
	if p.isKw("forall") || p.isKw("exists") {
		return p.expr()
	}
	return p.andE()
}

func (p *parser) andE() *Node {
	l := p.cmpE()
	for p.is("&&") {
		p.i++
		var r *Node
		if p.isKw("forall") || p.isKw("exists") {
			r = p.expr()
		} else {
			r = p.cmpE()
		}
		l = &Node{k: "bin", s: "&&", kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) cmpE() *Node {
	l := p.addE()
	var res *Node
	for {
		op := ""
		if t := p.peek(); t.k == "op" {
			switch t.s {
			case "==", "!=", "<", "<=", ">", ">=":
				op = t.s
			}
		} else if p.isKw("in") {
			op = "in"
		}
		if op == "" {
			break
		}
		p.i++
		r := p.addE()
		c := &Node{k: "cmp", s: op, kids: []*Node{l, r}}
		if res == nil {
			res = c
		} else {
			res = &Node{k: "bin", s: "&&", kids: []*Node{res, c}}
		}
		l = r
	}
	if res != nil {
		return res
	}
	return l
}

func (p *parser) addE() *Node {
	l := p.mulE()
	for p.is("+") || p.is("-") {
		o := p.next().s
		r := p.mulE()
		l = &Node{k: "arith", s: o, kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) mulE() *Node {
	l := p.unE()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		r := p.unE()
		l = &Node{k: "arith", s: o, kids: []*Node{l, r}}
	}
	return l
}

func (p *parser) unE() *Node {
	if p.is("!") {
		p.i++
		return &Node{k: "not", kids: []*Node{p.unE()}}
	}
	if p.is("-") {
		p.i++
		return &Node{k: "neg", kids: []*Node{p.unE()}}
	}
	return p.post()
}

func (p *parser) post() *Node {
	n := p.prim()
	for {
		switch {
		case p.is("."):
			p.i++
			n = &Node{k: "field", s: p.next().s, kids: []*Node{n}}
		case p.is("["):
			p.i++
			e := p.expr()
			p.eat("]")
			n = &Node{k: "index", kids: []*Node{n, e}}
		case p.is("(") && n.k == "id":
			p.i++
			c := &Node{k: "call", s: n.s}
			for !p.is(")") {
				c.kids = append(c.kids, p.expr())
				if p.is(",") {
					p.i++
				}
			}
			p.eat(")")
			n = c
		default:
			return n
		}
	}
}

func (p *parser) prim() *Node {
	t := p.next()
	switch t.k {
	case "num":
		return &Node{k: "num", s: t.s}
	case "str":
		return &Node{k: "str", s: t.s}
	case "id":
		switch t.s {
		case "true", "false", "nil":
			return &Node{k: t.s}
		}
		return &Node{k: "id", s: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.eat(")")
			return e
		}
	}
	panic(fmt.Errorf("spec: unexpected %q in: %s", t.s, p.src))
}

var clauseKw = map[string]bool{"ghost": true, "pure": true, "rec": true, "axiom": true, "lemma": true, "func": true, "method": true,
	"requires": true, "ensures": true, "assumes": true, "inv": true, "modifies": true, "frame": true, "writes": true, "nopanic": true, "strings": true, "elsewhere": true,
	"prop": true, "trusted": true, "let": true, "note": true, "inline": true, "pool": true, "timeout": true, "fpure": true, "hint": true, "assert": true, "made": true, "set": true, "main": true, "lean": true, "bounded": true}

func LoadSpec(dir string) (*Spec, error) {
	sp := &Spec{ghosts: map[string]string{}, pures: map[string]*PureFn{}, contracts: map[string]*Contract{}, pools: map[string][]*Clause{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	for _, ct := range sp.contracts {
		for _, cs := range [][]*Clause{ct.requires, ct.ensures, ct.asserts, ct.invs, ct.assumes} {
			for _, c := range cs {
				if len(c.tags) == 0 {
					c.tags = ct.main
				}
			}
		}
	}
	return sp, nil
}

// ForProp makes the contracts that a property lists under "prop" obligations of
// that property's check even where the other checks take them as trusted.
func (sp *Spec) ForProp(id string) {
	for _, ct := range sp.contracts {
		for _, p := range ct.props {
			if p == id {
				ct.trusted = false
			}
		}
	}
}

func (sp *Spec) loadFile(fn string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	if sp.texts == nil {
		sp.texts = map[string]string{}
	}
	sp.texts[filepath.Base(fn)] = string(b)
	var stmts []string
	for _, ln := range strings.Split(string(b), "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t("); i >= 0 {
			w = t[:i]
		}
		if clauseKw[w] {
			stmts = append(stmts, t)
		} else {
			if len(stmts) == 0 {
				return fmt.Errorf("stray line %q", t)
			}
			stmts[len(stmts)-1] += " " + t
		}
	}
	var cur *Contract
	base := filepath.Base(fn)
	for _, s := range stmts {
		kw := s
		rest := ""
		if i := strings.IndexAny(s, " \t"); i >= 0 {
			kw, rest = s[:i], strings.TrimSpace(s[i+1:])
		}
		switch kw {
		case "ghost":
			f := strings.SplitN(rest, " ", 2)
			sp.ghosts[f[0]] = strings.TrimSpace(f[1])
		case "pure":
			pf := parsePure(rest)
			if _, dup := sp.pures[pf.name]; dup {
				return fmt.Errorf("duplicate pure %s", pf.name)
			}
			sp.pures[pf.name] = pf
		case "rec":
			pf := parsePure(rest)
			pf.rec = true
			if cur == nil {
				sp.pures[pf.name] = pf
			} else {
				cur.recs = append(cur.recs, pf)
			}
		case "bounded": // bounded PROP text: what only the executable contract covers
			f := strings.SplitN(rest, " ", 2)
			sp.bounded = append(sp.bounded, [2]string{f[0], f[1]})
		case "axiom":
			c := parseClause(rest, base)
			sp.axioms = append(sp.axioms, c)
		case "lemma":
			c := parseClause(rest, base)
			sp.lemmas = append(sp.lemmas, c)
		case "func", "method":
			cur = parseSig(rest)
			cur.iface = kw == "method"
			cur.file = base
			if _, dup := sp.contracts[cur.name]; dup {
				return fmt.Errorf("duplicate contract %s", cur.name)
			}
			sp.contracts[cur.name] = cur
			sp.order = append(sp.order, cur.name)
		case "prop":
			cur.props = append(cur.props, strings.Fields(rest)...)
		case "requires":
			cur.requires = append(cur.requires, parseClause(rest, base))
		case "ensures":
			cur.ensures = append(cur.ensures, parseClause(rest, base))
		case "hint":
			cur.hints = append(cur.hints, parseClause(rest, base))
		case "assert":
			cur.asserts = append(cur.asserts, parseClause(rest, base))
		case "lean":
			cur.lean = append(cur.lean, strings.Fields(rest)...)
		case "elsewhere":
			cur.elsewhere = append(cur.elsewhere, strings.Fields(rest)...)
		case "main":
			cur.main = append(cur.main, strings.Fields(rest)...)
		case "set":
			f := strings.SplitN(rest, "=", 2)
			c := parseClause("set: "+f[1], base)
			c.label = strings.TrimSpace(f[0])
			if _, ok := sp.ghosts[c.label]; !ok {
				return fmt.Errorf("set of unknown ghost %s", c.label)
			}
			cur.sets = append(cur.sets, c)
		case "made":
			f := strings.SplitN(rest, " ", 2)
			cur.made = append(cur.made, [2]string{f[0], strings.TrimSpace(f[1])})
		case "assumes":
			cur.assumes = append(cur.assumes, parseClause(rest, base))
		case "let":
			cur.lets = append(cur.lets, parseClause(rest, base))
		case "inv":
			cur.invs = append(cur.invs, parseInv(rest, base))
		case "pool":
			f := strings.SplitN(rest, " ", 2)
			sp.pools[f[0]] = append(sp.pools[f[0]], parseInv(f[1], base))
		case "modifies":
			cur.modifies = append(cur.modifies, strings.Fields(rest)...)
		case "writes":
			cur.writes = append(cur.writes, strings.Fields(rest)...)
		case "frame":
			cur.frame = true
		case "nopanic":
			if rest == "" {
				cur.nopanic = []string{"*"}
			} else {
				cur.nopanic = strings.Fields(rest)
			}
		case "strings":
			cur.strs = true
		case "trusted":
			cur.trusted = true
			cur.note = rest
		case "inline":
			cur.inline = true
		case "fpure":
			cur.fpure = true
		case "timeout":
			fmt.Sscan(rest, &cur.timeout)
		case "note":
			if cur != nil {
				cur.note = rest
			}
		default:
			return fmt.Errorf("bad statement %q", s)
		}
	}
	return nil
}

func parseSig(s string) *Contract {
	c := &Contract{}
	i := strings.Index(s, "(")
	if i < 0 {
		c.name = s
		return c
	}
	c.name = strings.TrimSpace(s[:i])
	parts := strings.Split(s[i+1:], "(")
	split := func(x string) []string {
		x = strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(x), ")"))
		var out []string
		for _, f := range strings.Split(x, ",") {
			if f = strings.TrimSpace(f); f != "" {
				out = append(out, f)
			}
		}
		return out
	}
	c.params = split(parts[0])
	if len(parts) > 1 {
		c.results = split(parts[1])
	}
	return c
}

func parseVars(s string) []VarDecl {
	var out []VarDecl
	for _, f := range strings.Split(s, ",") {
		f = strings.TrimSpace(f)
		if f == "" {
			continue
		}
		k := strings.Fields(f)
		ty := ""
		if len(k) > 1 {
			ty = k[1]
		}
		out = append(out, VarDecl{k[0], ty})
	}
	return out
}

func parsePure(s string) *PureFn {
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	pf := &PureFn{name: strings.TrimSpace(s[:i]), params: parseVars(s[i+1 : j])}
	rest := strings.TrimSpace(s[j+1:])
	if k := strings.Index(rest, " = "); k >= 0 {
		pf.ret = strings.TrimSpace(rest[:k])
		pf.body = parseExpr(rest[k+3:])
	} else {
		pf.ret = rest
	}
	return pf
}

// "label [P01,P02]: expr"
func parseClause(s, file string) *Clause {
	c := &Clause{src: s, file: file}
	i := strings.Index(s, ":")
	for i >= 0 && i+1 < len(s) && s[i+1] == ':' {
		i = -1
	}
	if i > 0 {
		head := strings.TrimSpace(s[:i])
		ok := true
		lab := head
		if k := strings.Index(head, "using("); k >= 0 && strings.HasSuffix(head, ")") {
			c.using = append(strings.Fields(head[k+6:len(head)-1]), "-")
			head = strings.TrimSpace(head[:k])
			lab = head
		}
		if k := strings.Index(head, "["); k >= 0 && strings.HasSuffix(head, "]") {
			lab = strings.TrimSpace(head[:k])
			for _, t := range strings.Split(head[k+1:len(head)-1], ",") {
				c.tags = append(c.tags, strings.TrimSpace(t))
			}
		}
		for _, r := range lab {
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '-') {
				ok = false
			}
		}
		if !ok {
			panic(fmt.Errorf("clause needs a label: %s", s))
		}
		c.label = lab
		c.n = parseExpr(s[i+1:])
		c.src = strings.TrimSpace(s[i+1:])
		return c
	}
	panic(fmt.Errorf("clause needs a label: %s", s))
}

// "label(vars) @where: expr"
func parseInv(s, file string) *Clause {
	c := &Clause{file: file}
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	c.label = strings.TrimSpace(s[:i])
	c.vars = parseVars(s[i+1 : j])
	rest := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(rest, "[") {
		k := strings.Index(rest, "]")
		for _, t := range strings.Split(rest[1:k], ",") {
			c.tags = append(c.tags, strings.TrimSpace(t))
		}
		rest = strings.TrimSpace(rest[k+1:])
	}
	if strings.HasPrefix(rest, "using(") {
		k := strings.Index(rest, ")")
		c.using = append(strings.Fields(rest[6:k]), c.label)
		rest = strings.TrimSpace(rest[k+1:])
	}
	if strings.HasPrefix(rest, "@") {
		k := strings.Index(rest, ":")
		c.loop = strings.TrimSpace(rest[1:k])
		rest = rest[k:]
	}
	if !strings.HasPrefix(rest, ":") {
		panic(fmt.Errorf("inv needs ':' : %s", s))
	}
	c.src = strings.TrimSpace(rest[1:])
	c.n = parseExpr(rest[1:])
	return c
}

// ---------- evaluation ----------

type SpecVal struct {
	t   *Term
	typ types.Type
	v   Val    // lazily converted (cells, slice variables)
	fn  string // name of a spec function bound in scope
}

type specCtx struct {
	vc    *VC
	st    *State
	old   *State
	env   map[string]SpecVal
	oenv  map[string]SpecVal // values of names at entry (old)
	recs  map[string]*recInst
	depth int
	entry *State // loop entry state for entry(e)
	eenv  map[string]SpecVal
}

type recInst struct {
	f    *PureFn
	smt  string
	ret  Sort
	rtyp types.Type
	ptyp []types.Type
}

func (c *specCtx) with(name string, v SpecVal) *specCtx {
	n := *c
	n.env = map[string]SpecVal{}
	for k, x := range c.env {
		n.env[k] = x
	}
	n.env[name] = v
	return &n
}

func (P *Program) resolveType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(P.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(P.resolveType(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		i := strings.Index(s, "]")
		return types.NewMap(P.resolveType(s[4:i]), P.resolveType(s[i+1:]))
	}
	if s == "struct{}" {
		return types.NewStruct(nil, nil)
	}
	if s == "error" || s == "any" {
		return types.Universe.Lookup(s).Type()
	}
	if t, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return t.Type()
	}
	if s == "ref" {
		return types.Typ[types.UnsafePointer]
	}
	if i := strings.Index(s, "["); i > 0 && strings.HasSuffix(s, "]") {
		var args []types.Type
		for _, a := range strings.Split(s[i+1:len(s)-1], ",") {
			args = append(args, P.resolveType(strings.TrimSpace(a)))
		}
		t, err := types.Instantiate(nil, P.resolveType(s[:i]), args, false)
		if err != nil {
			panic(unsupported("spec: %s: %v", s, err))
		}
		return t
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		pk := P.byName[s[:i]]
		if pk == nil {
			pk = P.byPath[s[:i]]
		}
		if pk == nil {
			pk = P.byPath["github.com/mrasu/GravityR/"+s[:i]]
		}
		if pk == nil {
			panic(unsupported("spec: unknown package %s", s[:i]))
		}
		o := pk.Scope().Lookup(s[i+1:])
		if o == nil { // another package of the same name
			var paths []string
			for p, k := range P.byPath {
				if k.Name() == s[:i] && k.Scope().Lookup(s[i+1:]) != nil {
					paths = append(paths, p)
				}
			}
			sort.Strings(paths)
			for _, p := range paths {
				if o == nil || strings.HasPrefix(p, "github.com/mrasu/GravityR/") {
					o = P.byPath[p].Scope().Lookup(s[i+1:])
				}
			}
		}
		if o == nil {
			panic(unsupported("spec: unknown type %s", s))
		}
		return o.Type()
	}
	panic(unsupported("spec: unknown type %s", s))
}

// specSort: sort of a spec type, which may be a ghost array "[int]int"
func (vc *VC) specSort(s string) (Sort, types.Type) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") && !strings.HasPrefix(s, "[]") {
		i := strings.Index(s, "]")
		a, _ := vc.specSort(s[1:i])
		b, _ := vc.specSort(s[i+1:])
		return arrSort(a, b), nil
	}
	if s == "ref" || s == "mint" {
		return "Int", nil
	}
	if s == "T" || s == "K" || s == "V" {
		if t, ok := vc.tparams[s]; ok {
			return vc.st.S(t), t
		}
	}
	t := vc.P.resolveType(s)
	return vc.st.S(t), t
}

func (c *specCtx) bool(n *Node) *Term {
	v := c.eval(n)
	if v.t.Sort != "Bool" {
		panic(unsupported("spec: not a boolean: %s", v.t.S))
	}
	return v.t
}

func (c *specCtx) lookup(name string) (SpecVal, bool) {
	v, ok := c.env[name]
	if !ok {
		return v, false
	}
	if v.t == nil && v.v != nil {
		if a, isA := v.v.(*Addr); isA && a.cell != "" {
			v.t = c.vc.load(c.st, a)
		} else {
			v.t = c.vc.term(c.st, v.v)
		}
	}
	return v, true
}

func boolT() types.Type { return types.Typ[types.Bool] }
func intTy() types.Type { return types.Typ[types.Int] }

func (c *specCtx) eval(n *Node) SpecVal {
	vc := c.vc
	switch n.k {
	case "num":
		return SpecVal{t: tm(n.s, "Int"), typ: intTy()}
	case "str":
		return SpecVal{t: vc.strConst(n.s), typ: types.Typ[types.String]}
	case "true":
		return SpecVal{t: tTrue, typ: boolT()}
	case "false":
		return SpecVal{t: tFalse, typ: boolT()}
	case "nil":
		return SpecVal{t: intT(0), typ: types.Typ[types.UntypedNil]}
	case "id":
		if v, ok := c.lookup(n.s); ok {
			return v
		}
		if vc.root != nil {
			for _, m := range vc.root.made {
				if m[0] == n.s {
					so, ty := vc.specSort("[]" + m[1])
					vc.compSort["A."+n.s] = so
					return SpecVal{t: vc.get(c.st, "A."+n.s, so), typ: ty}
				}
			}
		}
		if g, ok := vc.P.Spec.ghosts[n.s]; ok {
			so, ty := vc.specSort(g)
			key := "G." + n.s
			vc.compSort[key] = so
			return SpecVal{t: vc.get(c.st, key, so), typ: ty}
		}
		if n.s == "$alloc" {
			return SpecVal{t: vc.alloc(c.st), typ: intTy()}
		}
		if pf, ok := vc.P.Spec.pures[n.s]; ok && len(pf.params) == 0 {
			return c.callPure(pf, nil)
		}
		panic(unsupported("spec: unknown name %s", n.s))
	case "not":
		return SpecVal{t: not(c.bool(n.kids[0])), typ: boolT()}
	case "neg":
		return SpecVal{t: app("Int", "-", c.eval(n.kids[0]).t), typ: intTy()}
	case "bin":
		a := c.bool(n.kids[0])
		b := c.bool(n.kids[1])
		switch n.s {
		case "&&":
			return SpecVal{t: and(a, b), typ: boolT()}
		case "||":
			return SpecVal{t: or(a, b), typ: boolT()}
		case "==>":
			return SpecVal{t: implies(a, b), typ: boolT()}
		case "<==>":
			return SpecVal{t: eq(a, b), typ: boolT()}
		}
	case "cond":
		a, x, y := c.bool(n.kids[0]), c.eval(n.kids[1]), c.eval(n.kids[2])
		return SpecVal{t: ite(a, x.t, y.t), typ: x.typ}
	case "arith":
		x, y := c.eval(n.kids[0]), c.eval(n.kids[1])
		if x.t.Sort == vc.st.Str() && n.s == "+" {
			return SpecVal{t: vc.strCat(x.t, y.t), typ: x.typ}
		}
		if x.t.Sort == "F64" {
			op := map[string]string{"+": "f_add", "-": "f_sub", "*": "f_mul", "/": "f_div"}[n.s]
			return SpecVal{t: vc.call(op, "F64", x.t, y.t), typ: x.typ}
		}
		op := map[string]string{"+": "+", "-": "-", "*": "*", "/": "div", "%": "mod"}[n.s]
		return SpecVal{t: app("Int", op, x.t, y.t), typ: intTy()}
	case "cmp":
		return SpecVal{t: c.cmp(n), typ: boolT()}
	case "field":
		return c.fieldVal(c.eval(n.kids[0]), n.s)
	case "index":
		x := c.eval(n.kids[0])
		i := c.eval(n.kids[1])
		return c.indexVal(x, i)
	case "quant":
		return c.quant(n)
	case "call":
		return c.callSpec(n)
	}
	panic(unsupported("spec: cannot evaluate %s", n.k))
}

func (c *specCtx) cmp(n *Node) *Term {
	vc := c.vc
	if n.s == "in" {
		k, m := c.eval(n.kids[0]), c.eval(n.kids[1])
		if m.typ == nil {
			return sel(m.t, k.t)
		}
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok {
			panic(unsupported("spec: 'in' needs a map"))
		}
		_, in := vc.mapGet(c.st, m.t, mt, k.t)
		return in
	}
	x, y := c.eval(n.kids[0]), c.eval(n.kids[1])
	if x.t.Sort != y.t.Sort {
		// nil comparison with slices
		if vc.st.isSlice(x.t.Sort) && n.kids[1].k == "nil" {
			if n.s == "==" {
				return vc.st.snil(x.t)
			}
			return not(vc.st.snil(x.t))
		}
		panic(unsupported("spec: comparing %s with %s", x.t.Sort, y.t.Sort))
	}
	switch n.s {
	case "==":
		if x.t.Sort == "Bool" {
			return eq(x.t, y.t)
		}
		return eq(x.t, y.t)
	case "!=":
		return not(eq(x.t, y.t))
	}
	if x.t.Sort == vc.st.Str() {
		switch n.s {
		case "<":
			return vc.strLt(x.t, y.t)
		case ">":
			return vc.strLt(y.t, x.t)
		case "<=":
			return not(vc.strLt(y.t, x.t))
		case ">=":
			return not(vc.strLt(x.t, y.t))
		}
	}
	if x.t.Sort == "F64" {
		switch n.s {
		case "<":
			return vc.flt(x.t, y.t)
		case ">":
			return vc.flt(y.t, x.t)
		case "<=":
			return not(vc.flt(y.t, x.t))
		case ">=":
			return not(vc.flt(x.t, y.t))
		}
	}
	return app("Bool", n.s, x.t, y.t)
}

func (c *specCtx) indexVal(x, i SpecVal) SpecVal {
	vc := c.vc
	if vc.st.isSlice(x.t.Sort) {
		var et types.Type
		if x.typ != nil {
			et = x.typ.Underlying().(*types.Slice).Elem()
		}
		return SpecVal{t: sel(vc.st.sarr(x.t), i.t), typ: et}
	}
	if x.typ != nil {
		if mt, ok := x.typ.Underlying().(*types.Map); ok {
			raw, _ := vc.mapGet(c.st, x.t, mt, i.t)
			return SpecVal{t: raw, typ: mt.Elem()}
		}
	}
	if strings.HasPrefix(x.t.Sort, "(Array") {
		return SpecVal{t: sel(x.t, i.t)}
	}
	panic(unsupported("spec: cannot index %s", x.t.Sort))
}

func (c *specCtx) fieldVal(x SpecVal, f string) SpecVal {
	vc := c.vc
	if x.typ == nil {
		panic(unsupported("spec: field %s of untyped value", f))
	}
	t := types.Unalias(x.typ)
	var pk *types.Package
	bt := t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		bt = types.Unalias(p.Elem())
	}
	if nm, ok := bt.(*types.Named); ok {
		pk = nm.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, pk, f)
	if _, ok := obj.(*types.Var); !ok {
		panic(unsupported("spec: no field %s in %s", f, t))
	}
	cur := x
	for _, i := range path {
		ct := types.Unalias(cur.typ)
		if p, ok := ct.Underlying().(*types.Pointer); ok {
			st := p.Elem()
			key, so, ft := vc.fieldComp(st, i)
			cur = SpecVal{t: sel(vc.get(c.st, key, so), cur.t), typ: ft}
		} else {
			s := ct.Underlying().(*types.Struct)
			cur = SpecVal{t: vc.st.field(cur.t, i), typ: s.Field(i).Type()}
		}
	}
	return cur
}

func (c *specCtx) quant(n *Node) SpecVal {
	vc := c.vc
	ctx := *c
	ctx.env = map[string]SpecVal{}
	for k, v := range c.env {
		ctx.env[k] = v
	}
	if c.oenv != nil {
		ctx.oenv = map[string]SpecVal{}
		for k, v := range c.oenv {
			ctx.oenv[k] = v
		}
	}
	if c.eenv != nil {
		ctx.eenv = map[string]SpecVal{}
		for k, v := range c.eenv {
			ctx.eenv[k] = v
		}
	}
	saved := vc.bound
	vc.bound = true
	defer func() { vc.bound = saved }()
	var decl []string
	for _, v := range n.vars {
		so, ty := vc.specSort(v.typ)
		vc.qn++
		name := fmt.Sprintf("%s?%d", mangle(v.name), vc.qn)
		decl = append(decl, fmt.Sprintf("(%s %s)", name, so))
		sv := SpecVal{t: tm(name, so), typ: ty}
		ctx.env[v.name] = sv
		if ctx.oenv != nil {
			ctx.oenv[v.name] = sv
		}
		if ctx.eenv != nil {
			ctx.eenv[v.name] = sv
		}
	}
	body := ctx.bool(n.kids[0])
	if body.S == "true" {
		return SpecVal{t: tTrue, typ: boolT()}
	}
	var pats strings.Builder
	for _, p := range n.pats {
		single := ""
		pats.WriteString(" :pattern (")
		for k, e := range p {
			if k > 0 {
				pats.WriteByte(' ')
			}
			s := ctx.eval(e).t.S
			pats.WriteString(s)
			if len(p) == 1 {
				single = s
			}
		}
		pats.WriteString(")")
		// a recursive function applied to something fixed also fires on its unrolled copy
		if sp := strings.IndexByte(single, ' '); sp > 1 && single[0] == '(' && vc.funs[single[1:sp]+"_u"] {
			fixed := single[sp:]
			for _, d := range decl {
				fixed = strings.ReplaceAll(fixed, " "+d[1:strings.IndexByte(d, ' ')], "")
			}
			if strings.Trim(fixed, " )") != "" {
				pats.WriteString(" :pattern ((" + single[1:sp] + "_u" + single[sp:] + ")")
			}
		}
	}
	b := body.S
	if pats.Len() > 0 {
		b = "(! " + b + pats.String() + ")"
	}
	return SpecVal{t: tm(fmt.Sprintf("(%s (%s) %s)", n.s, strings.Join(decl, " "), b), "Bool"), typ: boolT()}
}

func (c *specCtx) callSpec(n *Node) SpecVal {
	vc := c.vc
	switch n.s {
	case "old":
		ctx := *c
		ctx.st = c.old
		if c.oenv != nil {
			ctx.env = c.oenv
		}
		return ctx.eval(n.kids[0])
	case "entry":
		if c.entry == nil {
			panic(unsupported("spec: entry() outside a loop"))
		}
		ctx := *c
		ctx.st = c.entry
		if c.eenv != nil {
			ctx.env = c.eenv
		}
		return ctx.eval(n.kids[0])
	case "len":
		x := c.eval(n.kids[0])
		if vc.st.isSlice(x.t.Sort) {
			return SpecVal{t: vc.st.slen(x.t), typ: intTy()}
		}
		if x.t.Sort == vc.st.Str() {
			return SpecVal{t: vc.strLen(x.t), typ: intTy()}
		}
		if x.typ != nil {
			if mt, ok := x.typ.Underlying().(*types.Map); ok {
				_, _, ln, _, _, ls := vc.mapComps(mt)
				return SpecVal{t: sel(vc.get(c.st, ln, ls), x.t), typ: intTy()}
			}
		}
		panic(unsupported("spec: len of %s", x.t.Sort))
	case "seq": // seq(k, n, e): the slice of length n whose k-th element is e
		return c.seq(n)
	case "isnil":
		x := c.eval(n.kids[0])
		if vc.st.isSlice(x.t.Sort) {
			return SpecVal{t: vc.st.snil(x.t), typ: boolT()}
		}
		return SpecVal{t: eq(x.t, intT(0)), typ: boolT()}
	case "fresh":
		x := c.eval(n.kids[0])
		return SpecVal{t: and(app("Bool", ">", x.t, vc.alloc(c.old)), app("Bool", "<=", x.t, vc.alloc(c.st))), typ: boolT()}
	case "live": // allocated by now
		x := c.eval(n.kids[0])
		return SpecVal{t: app("Bool", "<=", x.t, vc.alloc(c.st)), typ: boolT()}
	case "existed": // allocated in the entry state
		x := c.eval(n.kids[0])
		return SpecVal{t: app("Bool", "<=", x.t, vc.alloc(c.old)), typ: boolT()}
	case "tagis":
		x := c.eval(n.kids[0])
		ty := vc.P.resolveType(n.kids[1].s)
		vc.fun("tagof", "Int", "Int")
		return SpecVal{t: and(not(eq(x.t, intT(0))), eq(app("Int", "tagof", x.t), intT(int64(vc.st.tid(ty))))), typ: boolT()}
	case "as":
		x := c.eval(n.kids[0])
		ty := vc.P.resolveType(n.kids[1].s)
		return SpecVal{t: vc.unbox(ty, x.t), typ: ty}
	case "boxed":
		x := c.eval(n.kids[0])
		return SpecVal{t: vc.box(x.typ, x.t), typ: types.Universe.Lookup("any").Type()}
	case "typed": // typed(x, "T"): view an untyped reference as a Go value
		x := c.eval(n.kids[0])
		return SpecVal{t: x.t, typ: vc.P.resolveType(n.kids[1].s)}
	case "deref": // the value a non-struct pointer points to
		x := c.eval(n.kids[0])
		et := x.typ.Underlying().(*types.Pointer).Elem()
		key, so := vc.cellComp(et)
		return SpecVal{t: sel(vc.get(c.st, key, so), x.t), typ: et}
	case "i2f":
		return SpecVal{t: vc.call("i2f", "F64", c.eval(n.kids[0]).t), typ: types.Typ[types.Float64]}
	case "unchanged": // unchanged("T", "field"): component equal to entry for objects existing at entry
		return SpecVal{t: c.unchanged(n), typ: boolT()}
	case "store":
		a, i, v := c.eval(n.kids[0]), c.eval(n.kids[1]), c.eval(n.kids[2])
		return SpecVal{t: sto(a.t, i.t, v.t)}
	case "apply": // apply(f, args...): value of a pure function value
		f := c.eval(n.kids[0])
		var args []*Term
		for _, k := range n.kids[1:] {
			args = append(args, c.eval(k).t)
		}
		sig := f.typ.Underlying().(*types.Signature)
		return SpecVal{t: vc.applyFn(f.t, sig, args), typ: sig.Results().At(0).Type()}
	}
	if r, ok := c.recs[n.s]; ok {
		var args []*Term
		for _, k := range n.kids {
			args = append(args, c.eval(k).t)
		}
		return SpecVal{t: app(r.ret, r.smt, args...), typ: r.rtyp}
	}
	if pf, ok := vc.P.Spec.pures[n.s]; ok {
		var args []SpecVal
		for _, k := range n.kids {
			args = append(args, c.eval(k))
		}
		return c.callPure(pf, args)
	}
	if b, ok := specBuiltins[n.s]; ok {
		var args []*Term
		for _, k := range n.kids {
			args = append(args, c.eval(k).t)
		}
		return b(vc, args)
	}
	panic(unsupported("spec: unknown function %s", n.s))
}

// seq introduces a constant slice defined elementwise.
func (c *specCtx) seq(n *Node) SpecVal {
	vc := c.vc
	if vc.bound {
		panic(unsupported("spec: seq under a quantifier"))
	}
	cnt := c.eval(n.kids[1]).t
	ctx := *c
	ctx.env = map[string]SpecVal{}
	for k, v := range c.env {
		ctx.env[k] = v
	}
	vc.qn++
	name := fmt.Sprintf("%s?%d", mangle(n.kids[0].s), vc.qn)
	ctx.env[n.kids[0].s] = SpecVal{t: tm(name, "Int"), typ: intTy()}
	vc.bound = true
	e := ctx.eval(n.kids[2])
	vc.bound = false
	ty := types.NewSlice(e.typ)
	so := vc.st.S(ty)
	arr := vc.fresh("seq", arrSort("Int", e.t.Sort))
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= (select %s %s) %s)) :pattern ((select %s %s))))",
		name, name, name, cnt.S, arr.S, name, e.t.S, arr.S, name), "Bool"))
	return SpecVal{t: vc.st.mk(so, cnt, arr, tFalse), typ: ty}
}

func (c *specCtx) unchanged(n *Node) *Term {
	vc := c.vc
	ty := vc.P.resolveType(n.kids[0].s)
	s := ty.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n.kids[1].s {
			key, so, _ := vc.fieldComp(ty, i)
			a, b := vc.get(c.st, key, so), vc.get(c.old, key, so)
			if a.S == b.S {
				return tTrue
			}
			return tm(fmt.Sprintf("(forall ((r? Int)) (! (=> (<= r? %s) (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", vc.alloc(c.old).S, a.S, b.S, a.S), "Bool")
		}
	}
	panic(unsupported("spec: no field %s", n.kids[1].s))
}

func (c *specCtx) callPure(pf *PureFn, args []SpecVal) SpecVal {
	vc := c.vc
	if len(args) != len(pf.params) {
		panic(unsupported("spec: %s takes %d arguments", pf.name, len(pf.params)))
	}
	rs, rt := vc.specSort(pf.ret)
	if pf.rec {
		vc.globalRec(pf)
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.t)
		}
		return SpecVal{t: app(rs, "rec_"+pf.name, ts...), typ: rt}
	}
	if pf.body == nil {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.t)
		}
		r := vc.call("u_"+pf.name, rs, ts...)
		vc.needAxioms()
		return SpecVal{t: r, typ: rt}
	}
	if c.depth > 40 {
		panic(unsupported("spec: recursion in pure %s", pf.name))
	}
	ctx := *c
	ctx.depth++
	ctx.env = map[string]SpecVal{}
	for k, v := range c.env {
		if strings.HasPrefix(k, "$") {
			ctx.env[k] = v
		}
	}
	ctx.oenv = nil
	ctx.eenv = nil
	for i, p := range pf.params {
		v := args[i]
		if v.typ == nil || isNilTyp(v.typ) {
			_, v.typ = vc.specSort(p.typ)
		}
		ctx.env[p.name] = v
	}
	return ctx.eval(pf.body)
}

func isNilTyp(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// globalRec declares a heap-independent recursive spec function (one unrolling per term).
func (vc *VC) globalRec(pf *PureFn) {
	if vc.funs["rec_"+pf.name] {
		return
	}
	r := vc.mkRec(pf, "rec_"+pf.name)
	_ = r
	ctx := &specCtx{vc: vc, st: &State{m: map[string]*Term{}}, old: &State{m: map[string]*Term{}}, env: map[string]SpecVal{}}
	ax := vc.recAxiom(ctx, pf, r)
	vc.pre = append(vc.pre, ax...)
}

func (vc *VC) mkRec(pf *PureFn, smt string) *recInst {
	rs, rt := vc.specSort(pf.ret)
	var so []Sort
	r := &recInst{f: pf, smt: smt, ret: rs, rtyp: rt}
	for _, p := range pf.params {
		s, t := vc.specSort(p.typ)
		so = append(so, s)
		r.ptyp = append(r.ptyp, t)
	}
	vc.fun(smt, rs, so...)
	vc.fun(smt+"_u", rs, so...)
	return r
}

func (vc *VC) recAxiom(ctx *specCtx, pf *PureFn, r *recInst) []string {
	saved := vc.bound
	vc.bound = true
	defer func() { vc.bound = saved }()
	c2 := *ctx
	c2.env = map[string]SpecVal{}
	for k, v := range ctx.env {
		c2.env[k] = v
	}
	c2.oenv = c2.env
	c2.recs = map[string]*recInst{}
	for k, v := range ctx.recs {
		c2.recs[k] = v
	}
	inner := *r
	inner.smt = r.smt + "_u"
	c2.recs[pf.name] = &inner
	var decl, names []string
	for i, p := range pf.params {
		so, ty := vc.specSort(p.typ)
		_ = i
		vc.qn++
		nm := fmt.Sprintf("%s?%d", mangle(p.name), vc.qn)
		decl = append(decl, fmt.Sprintf("(%s %s)", nm, so))
		names = append(names, nm)
		c2.env[p.name] = SpecVal{t: tm(nm, so), typ: ty}
	}
	lhs := fmt.Sprintf("(%s %s)", r.smt, strings.Join(names, " "))
	lhs2 := fmt.Sprintf("(%s_u %s)", r.smt, strings.Join(names, " "))
	if pf.body == nil {
		return nil
	}
	body := c2.eval(pf.body)
	return []string{
		fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(decl, " "), lhs, body.t.S, lhs),
		fmt.Sprintf("(assert (forall (%s) (! (= %s %s) :pattern (%s))))", strings.Join(decl, " "), lhs2, lhs, lhs),
	}
}

// needAxioms emits the global spec axioms once.
func (vc *VC) needAxioms() {
	if vc.axDone {
		return
	}
	vc.axDone = true
	for _, a := range vc.P.Spec.axioms {
		func() {
			// axioms over symbols of another property are emitted only where used
			ctx := &specCtx{vc: vc, st: &State{m: map[string]*Term{}}, old: &State{m: map[string]*Term{}}, env: map[string]SpecVal{}}
			if a.file == "common.gvc" {
				used := false
				for _, s := range a.tags {
					used = used || vc.root != nil && strings.Contains(vc.P.Spec.texts[vc.root.file], s)
				}
				if !used {
					return
				}
			} else if !vc.hasFile(a.file) {
				return
			}
			t := ctx.bool(a.n)
			vc.pre = append(vc.pre, "(assert "+t.S+")")
			vc.axioms = append(vc.axioms, a.label)
		}()
	}
}

func (vc *VC) hasFile(f string) bool { return vc.root != nil && vc.root.file == f }

type specFn func(vc *VC, args []*Term) SpecVal

var specBuiltins = map[string]specFn{}
