package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelCtx struct {
	f   *Frame
	ins ssa.Instruction
	c   *ssa.CallCommon
	st  *State
	g   *Term
	fn  *ssa.Function
}
type model func(vc *VC, mc *modelCtx, args []Val) Val

var models = map[string]model{}
var invokeModels = map[string]model{}
var noopPkgs = []string{"github.com/rs/zerolog", "fmt.Printf", "time.Sleep"}

// pureFn models a deterministic, side-effect free dependency function as an
// uninterpreted function of its arguments.
func pureFn(sym string) model {
	return func(vc *VC, mc *modelCtx, args []Val) Val {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, vc.term(mc.st, a))
		}
		sig := mc.fn.Signature
		var vals []Val
		for i := 0; i < sig.Results().Len(); i++ {
			n := sym
			if i > 0 {
				n = fmt.Sprintf("%s.%d", sym, i)
			}
			so := vc.st.S(sig.Results().At(i).Type())
			v := vc.call(n, so, ts...)
			if !vc.bound {
				v = vc.define(n, v)
				vc.assumeType(mc.g, v, sig.Results().At(i).Type(), mc.st)
			}
			vals = append(vals, v)
		}
		return pack(vals)
	}
}

func (vc *VC) newErr() *Term {
	if vc.bound {
		vc.fun("some_err", "Int")
		vc.axiom("some_err", "(> some_err 0)")
		return tm("some_err", "Int")
	}
	t := vc.fresh("err", "Int")
	vc.assume(tTrue, tm(fmt.Sprintf("(> %s 0)", t.S), "Bool"))
	return t
}

func (vc *VC) wrapErr(e *Term, tag string) *Term {
	vc.fun("wrap_err", "Int", "Int")
	vc.axiom("wrap_err", "(and (= (wrap_err 0) 0) (forall ((e? Int)) (! (=> (not (= e? 0)) (> (wrap_err e?) 0)) :pattern ((wrap_err e?)))))")
	return vc.define("werr", app("Int", "wrap_err", e))
}

func (vc *VC) regexLit(mc *modelCtx, v Val) *Term {
	t, ok := v.(*Term)
	if ok {
		if lit, ok := vc.regexOf[t.S]; ok {
			return vc.reConst(lit)
		}
	}
	panic(unsupported("regular expression of unknown text at %s", vc.pos(mc.ins)))
}

func canonRe(lit string) string {
	r, err := syntax.Parse(lit, syntax.Perl)
	if err != nil {
		return lit
	}
	return r.Simplify().String()
}

func (vc *VC) reConst(lit string) *Term {
	c := canonRe(lit)
	n := "RE_" + fmt.Sprint(len(vc.reNames))
	if m, ok := vc.reNames[c]; ok {
		n = m
	} else {
		vc.reNames[c] = n
		vc.reLits[n] = c
	}
	if !vc.funs[n] {
		vc.st.opq("Regex")
		vc.fun(n, "Regex")
	}
	return tm(n, "Regex")
}

func reGroups(lit string) int {
	r, err := syntax.Parse(lit, syntax.Perl)
	if err != nil {
		return 0
	}
	return r.MaxCap()
}

func (vc *VC) reMatch(re, s *Term) *Term {
	if vc.st.strTheory {
		return app("Bool", "str.in_re", s, tm(reToSMT(vc.reLits[re.S], true), "RegLan"))
	}
	return vc.call("re_match", "Bool", re, s)
}

func (vc *VC) timePart(so Sort, d [3]string) {
	vc.fun("tns", "Int", so)
	vc.fun(d[0], "Int", so)
	vc.axiom(d[0], fmt.Sprintf("(forall ((t? %s)) (! (= (%s t?) (%s (tns t?) %s)) :pattern ((%s t?))))", so, d[0], d[1], d[2], d[0]))
}

// times in UTC without a monotonic reading: equal as values when they are the same instant
func (vc *VC) timeUTC(so Sort) {
	vc.fun("tns", "Int", so)
	vc.fun("time_utc", "Bool", so)
	vc.fun("utc_of", so, "Int")
	vc.fun("tadd", so, so, "Int")
	vc.axiom("utc_of", fmt.Sprintf("(forall ((t? %s)) (! (=> (time_utc t?) (= t? (utc_of (tns t?)))) :pattern ((time_utc t?))))", so))
	vc.axiom("utc_is", fmt.Sprintf("(forall ((n? Int)) (! (and (time_utc (utc_of n?)) (= (tns (utc_of n?)) n?)) :pattern ((utc_of n?))))"))
	vc.axiom("utc_add", fmt.Sprintf("(forall ((t? %s) (d? Int)) (! (=> (time_utc t?) (time_utc (tadd t? d?))) :pattern ((tadd t? d?))))", so))
}

func (vc *VC) tns(t *Term) *Term {
	return vc.call("tns", "Int", t)
}

func init() {
	for n, s := range map[string]string{
		"strings.Contains": "strings_Contains", "strings.EqualFold": "strings_EqualFold", "strings.TrimSpace": "strings_TrimSpace",
		"strings.TrimSuffix": "strings_TrimSuffix", "strings.Replace": "strings_Replace", "strings.Split": "strings_Split", "strings.Join": "strings_Join",
		"strings.HasPrefix": "strings_HasPrefix", "strings.HasSuffix": "strings_HasSuffix", "strings.TrimPrefix": "strings_TrimPrefix",
		"strings.ToLower": "strings_ToLower", "strings.ToUpper": "strings_ToUpper", "strings.TrimLeft": "strings_TrimLeft", "strings.TrimRight": "strings_TrimRight",
		"strings.ReplaceAll": "strings_ReplaceAll", "strings.Repeat": "strings_Repeat", "strings.Index": "strings_Index", "strings.Count": "strings_Count", "strings.Fields": "strings_Fields",
		"strings.IndexByte": "strings_IndexByte", "strings.SplitN": "strings_SplitN", "strings.Trim": "strings_Trim",
		"path.Join": "path_Join", "path/filepath.Ext": "filepath_Ext", "unicode/utf8.RuneCountInString": "utf8_RuneCount",
		"(time.Duration).Milliseconds": "dur_ms", 
		"(time.Time).Format": "time_Format", "bytes.Equal": "bytes_Equal",
		"(time.Time).Day": "time_Day", "(time.Time).Hour": "time_Hour", "(time.Time).Location": "time_Location", "(time.Time).Month": "time_Month",
		"(time.Time).Year": "time_Year",
		"(github.com/auxten/postgresql-parser/pkg/sql/sem/tree.Name).Normalize":               "tree_Normalize",
		"(*github.com/auxten/postgresql-parser/pkg/sql/sem/tree.TableName).Table":             "tree_Table",
		"(*github.com/jaegertracing/jaeger/proto-gen/otel/common/v1.AnyValue).GetStringValue": "anyvalue_str",
		"reflect.TypeOf": "reflect_TypeOf",
	} {
		models[n] = pureFn(s)
	}
	models["bytes.Equal"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		x, y := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
		return vc.define("beq", eq(vc.call("bytes2str", vc.st.Str(), x), vc.call("bytes2str", vc.st.Str(), y)))
	}
	delete(models, "strings.Split")
	models["strings.Split"] = modelSplit
	models["strings.Contains"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		if vc.st.strTheory {
			return vc.define("contains", app("Bool", "str.contains", vc.term(mc.st, args[0]), vc.term(mc.st, args[1])))
		}
		return pureFn("strings_Contains")(vc, mc, args)
	}
	models["strings.Join"] = modelJoin
	models["github.com/pkg/errors.New"] = func(vc *VC, mc *modelCtx, args []Val) Val { return vc.newErr() }
	models["github.com/pkg/errors.Errorf"] = models["github.com/pkg/errors.New"]
	models["errors.New"] = models["github.com/pkg/errors.New"]
	models["fmt.Errorf"] = models["github.com/pkg/errors.New"]
	for _, n := range []string{"Wrap", "Wrapf", "WithStack", "WithMessage", "Cause"} {
		models["github.com/pkg/errors."+n] = func(vc *VC, mc *modelCtx, args []Val) Val {
			return vc.wrapErr(vc.term(mc.st, args[0]), "")
		}
	}
	models["github.com/pkg/errors.Is"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		a, b := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
		r := vc.call("errors_Is", "Bool", a, b)
		vc.assume(tTrue, implies(eq(a, b), r))
		vc.assume(tTrue, implies(and(eq(a, intT(0)), not(eq(b, intT(0)))), not(r)))
		return vc.define("is", r)
	}
	models["errors.Is"] = models["github.com/pkg/errors.Is"]
	models["strconv.FormatInt"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.define("itoa", vc.call("itoa", vc.st.Str(), vc.term(mc.st, args[0]), vc.term(mc.st, args[1])))
	}
	models["strconv.Itoa"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.define("itoa", vc.call("itoa", vc.st.Str(), vc.term(mc.st, args[0]), intT(10)))
	}
	parse := func(sym string, so Sort) model {
		return func(vc *VC, mc *modelCtx, args []Val) Val {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, vc.term(mc.st, a))
			}
			v := vc.define(sym, vc.call(sym, so, ts...))
			ok := vc.call(sym+"_ok", "Bool", ts...)
			e := vc.newErr()
			return Tuple{Val(v), Val(vc.define("perr", ite(ok, intT(0), e)))}
		}
	}
	models["strconv.ParseFloat"] = parse("parseFloat", "F64")
	models["strconv.ParseInt"] = parse("parseInt", "Int")
	models["strconv.Atoi"] = parse("atoi", "Int")
	models["math/rand.Intn"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		n := vc.term(mc.st, args[0])
		r := vc.fresh("rand", "Int")
		vc.assume(mc.g, and(app("Bool", "<=", intT(0), r), app("Bool", "<", r, n)))
		return r
	}
	models["regexp.MustCompile"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		if s, ok := vc.strLit(vc.term(mc.st, args[0])); ok {
			t := vc.fresh("re", "Int")
			vc.assume(tTrue, tm(fmt.Sprintf("(> %s 0)", t.S), "Bool"))
			vc.regexOf[t.S] = s
			return t
		}
		panic(unsupported("regexp.MustCompile of a computed pattern"))
	}
	models["(*regexp.Regexp).MatchString"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		re := vc.regexLit(mc, args[0])
		return vc.define("match", vc.reMatch(re, vc.term(mc.st, args[1])))
	}
	models["(*regexp.Regexp).FindString"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		re := vc.regexLit(mc, args[0])
		s := vc.term(mc.st, args[1])
		return vc.define("found", vc.call("re_find", vc.st.Str(), re, s))
	}
	models["(*regexp.Regexp).ReplaceAllString"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		re := vc.regexLit(mc, args[0])
		return vc.define("repl", vc.call("re_repl", vc.st.Str(), re, vc.term(mc.st, args[1]), vc.term(mc.st, args[2])))
	}
	models["(*regexp.Regexp).FindStringSubmatch"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		re := vc.regexLit(mc, args[0])
		s := vc.term(mc.st, args[1])
		so := vc.st.sliceOf(vc.st.Str(), nil)
		n := reGroups(vc.reLits[re.S]) + 1
		arr := vc.fresh("sub", arrSort("Int", vc.st.Str()))
		m := vc.define("match", vc.reMatch(re, s))
		for k := 0; k < n; k++ {
			vc.assume(tTrue, eq(sel(arr, intT(int64(k))), vc.call("re_sub", vc.st.Str(), re, s, intT(int64(k)))))
		}
		if vc.st.strTheory {
			vc.subDecomp(mc, re, s, arr, m)
		}
		return vc.st.mk(so, ite(m, intT(int64(n)), intT(0)), arr, not(m))
	}
	// time
	models["(time.Time).Before"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.define("before", app("Bool", "<", vc.tns(vc.term(mc.st, args[0])), vc.tns(vc.term(mc.st, args[1]))))
	}
	models["(time.Time).After"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.define("after", app("Bool", ">", vc.tns(vc.term(mc.st, args[0])), vc.tns(vc.term(mc.st, args[1]))))
	}
	models["(time.Time).Equal"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.define("teq", eq(vc.tns(vc.term(mc.st, args[0])), vc.tns(vc.term(mc.st, args[1]))))
	}
	models["(time.Time).Add"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		t, d := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
		vc.fun("tns", "Int", t.Sort)
		r := vc.call("tadd", t.Sort, t, d)
		vc.axiom("tadd", fmt.Sprintf("(forall ((t? %s) (d? Int)) (! (= (tns (tadd t? d?)) (+ (tns t?) d?)) :pattern ((tadd t? d?))))", t.Sort))
		return vc.define("tadd", r)
	}
	models["(time.Time).UTC"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		t := vc.term(mc.st, args[0])
		vc.fun("tns", "Int", t.Sort)
		r := vc.call("tutc", t.Sort, t)
		vc.timeUTC(t.Sort)
		vc.axiom("tutc", fmt.Sprintf("(forall ((t? %s)) (! (and (time_utc (tutc t?)) (= (tns (tutc t?)) (tns t?))) :pattern ((tutc t?))))", t.Sort))
		return vc.define("tutc", r)
	}
	models["(time.Time).Truncate"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		// multiples of d counted from year 1
		t, d := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
		vc.timeUTC(t.Sort)
		vc.axiom("ttrunc", fmt.Sprintf("(forall ((t? %s) (d? Int)) (! (and (=> (time_utc t?) (time_utc (ttrunc t? d?))) (= (tns (ttrunc t? d?)) (ite (<= d? 0) (tns t?) (- (tns t?) (mod (+ (tns t?) 62135596800000000000) d?))))) :pattern ((ttrunc t? d?))))", t.Sort))
		return vc.define("ttrunc", vc.call("ttrunc", t.Sort, t, d))
	}
	models["time.Date"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		so := vc.st.S(mc.fn.Signature.Results().At(0).Type())
		vc.timeUTC(so)
		var ts []*Term
		for _, a := range args {
			ts = append(ts, vc.term(mc.st, a))
		}
		r := vc.call("time_Date", so, ts...)
		for _, n := range []string{"Year", "Month", "Day", "Hour"} {
			vc.fun("time_"+n, "Int", so)
		}
		vc.fun("time_Location", ts[7].Sort, so)
		// the calendar hour of an instant in UTC is the instant rounded down to 3600 s
		vc.axiom("time_Date", fmt.Sprintf("(forall ((t? %s)) (! (=> (time_utc t?) (let ((d? (time_Date (time_Year t?) (time_Month t?) (time_Day t?) (time_Hour t?) 0 0 0 (time_Location t?)))) (and (time_utc d?) (= (tns d?) (- (tns t?) (mod (tns t?) 3600000000000)))))) :pattern ((time_Date (time_Year t?) (time_Month t?) (time_Day t?) (time_Hour t?) 0 0 0 (time_Location t?)))))", so))
		return vc.define("tdate", r)
	}
	models["(time.Time).Sub"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.define("tsub", app("Int", "-", vc.tns(vc.term(mc.st, args[0])), vc.tns(vc.term(mc.st, args[1]))))
	}
	// seconds, milliseconds and the nanosecond within the second are functions of the instant
	for n, d := range map[string][3]string{"Unix": {"time_Unix", "div", "1000000000"}, "UnixMilli": {"time_UnixMilli", "div", "1000000"}, "UnixNano": {"time_UnixNano", "div", "1"}, "Nanosecond": {"time_Nanosecond", "mod", "1000000000"}} {
		d := d
		models["(time.Time)."+n] = func(vc *VC, mc *modelCtx, args []Val) Val {
			t := vc.term(mc.st, args[0])
			vc.timePart(t.Sort, d)
			return vc.define("tpart", vc.call(d[0], "Int", t))
		}
		specBuiltins[d[0]] = func(vc *VC, args []*Term) SpecVal {
			vc.timePart(args[0].Sort, d)
			return SpecVal{t: vc.call(d[0], "Int", args[0]), typ: types.Typ[types.Int]}
		}
	}
	models["(time.Duration).Nanoseconds"] = func(vc *VC, mc *modelCtx, args []Val) Val { return vc.term(mc.st, args[0]) }
	models["(time.Duration).Truncate"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		d, m := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
		// d - d % m, with Go's remainder (sign of d)
		md := app("Int", "mod", d, m)
		r := ite(or(app("Bool", ">=", d, intT(0)), eq(md, intT(0))), app("Int", "-", d, md), app("Int", "+", app("Int", "-", d, md), m))
		return vc.define("dtrunc", ite(app("Bool", "<=", m, intT(0)), d, r))
	}
	models["(time.Duration).Seconds"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		vc.fun("f2i", "Int", "F64")
		r := vc.call("dur_sec", "F64", vc.term(mc.st, args[0]))
		// discharged by lemmas/p17_seconds.smt2
		vc.axiom("dur_sec", "(forall ((d? Int)) (! (=> (= (mod d? 1000000000) 0) (= (f2i (dur_sec d?)) (div d? 1000000000))) :pattern ((dur_sec d?))))")
		return vc.define("dsec", r)
	}
	models["time.Now"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		t := vc.fresh("now", vc.st.S(mc.fn.Signature.Results().At(0).Type()))
		vc.assume(tTrue, app("Bool", ">=", vc.tns(t), intT(0))) // the clock is past 1970
		return t
	}
	models["time.Since"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		r := vc.fresh("since", "Int")
		return r
	}
	models["fmt.Sprintf"] = modelSprintf
	models["sort.Slice"] = func(vc *VC, mc *modelCtx, args []Val) Val { return modelSort(vc, mc, args, false) }
	models["sort.SliceStable"] = func(vc *VC, mc *modelCtx, args []Val) Val { return modelSort(vc, mc, args, true) }
	models["os.Exit"] = func(vc *VC, mc *modelCtx, args []Val) Val { mc.g = tFalse; return nil }
	invokeModels[".error.Error"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.call("err_msg", vc.st.Str(), vc.term(mc.st, args[0]))
	}
	models["(*sync.Mutex).Lock"] = func(vc *VC, mc *modelCtx, args []Val) Val { return nil }
	models["(*sync.Mutex).Unlock"] = func(vc *VC, mc *modelCtx, args []Val) Val { return nil }
	invokeModels["reflect.Type.Name"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		return vc.call("reflect_Name", vc.st.Str(), vc.term(mc.st, args[0]))
	}

	// the same symbols in contracts
	sb := func(name, sym string, ret func(vc *VC) (Sort, types.Type)) {
		specBuiltins[name] = func(vc *VC, args []*Term) SpecVal {
			so, ty := ret(vc)
			return SpecVal{t: vc.call(sym, so, args...), typ: ty}
		}
	}
	rBool := func(vc *VC) (Sort, types.Type) { return "Bool", types.Typ[types.Bool] }
	rStr := func(vc *VC) (Sort, types.Type) { return vc.st.Str(), types.Typ[types.String] }
	rInt := func(vc *VC) (Sort, types.Type) { return "Int", types.Typ[types.Int] }
	rF := func(vc *VC) (Sort, types.Type) { return "F64", types.Typ[types.Float64] }
	rStrs := func(vc *VC) (Sort, types.Type) {
		t := types.NewSlice(types.Typ[types.String])
		return vc.st.S(t), t
	}
	sb("strings_EqualFold", "strings_EqualFold", rBool)
	sb("strings_Contains", "strings_Contains", rBool)
	sb("strings_TrimSpace", "strings_TrimSpace", rStr)
	sb("strings_Split", "strings_Split", rStrs)
	specBuiltins["strings_Join"] = func(vc *VC, args []*Term) SpecVal {
		return SpecVal{t: vc.joinTerm(args[0], args[1]), typ: types.Typ[types.String]}
	}
	sb("strings_Replace", "strings_Replace", rStr)
	sb("strings_TrimSuffix", "strings_TrimSuffix", rStr)
	sb("anyvalue_str", "anyvalue_str", rStr)
	sb("itoa", "itoa", rStr)
	sb("str_sub", "str_sub", rStr)
	sb("parseFloat", "parseFloat", rF)
	// facts about the string constants of the code
	for _, nm := range []string{"lit_fixed", "lit_quotes", "lit_first", "lit_last"} {
		nm := nm
		specBuiltins[nm] = func(vc *VC, args []*Term) SpecVal {
			vc.litFacts()
			if nm == "lit_fixed" {
				return SpecVal{t: vc.call(nm, "Bool", args[0]), typ: boolT()}
			}
			return SpecVal{t: vc.call(nm, "Int", args[0]), typ: intTy()}
		}
	}
	models["strings.Replace"] = modelReplace
	// an array literal of PostgreSQL as a function of its text
	models["(*github.com/lib/pq.StringArray).Scan"] = func(vc *VC, mc *modelCtx, args []Val) Val {
		src := vc.unbox(types.Typ[types.String], vc.term(mc.st, args[1]))
		pt := mc.fn.Signature.Recv().Type()
		a := vc.asAddr(args[0], pt)
		et := pt.(*types.Pointer).Elem()
		ok := vc.define("pqok", vc.call("pq_array_ok", "Bool", src))
		v := vc.call("pq_array", vc.st.S(et), src)
		vc.assume(tTrue, app("Bool", ">=", vc.st.slen(v), intT(0)))
		vc.store(mc.st, a, ite(ok, v, vc.fresh("junk", vc.st.S(et))))
		e := vc.newErr()
		return vc.define("perr", ite(ok, intT(0), e))
	}
	specBuiltins["isEOF"] = func(vc *VC, args []*Term) SpecVal {
		vc.compSort["G.global.io.EOF"] = "Int"
		eof := vc.compInit("G.global.io.EOF", "Int")
		return SpecVal{t: or(eq(args[0], eof), vc.call("errors_Is", "Bool", args[0], eof)), typ: types.Typ[types.Bool]}
	}
	sb("pq_array", "pq_array", rStrs)
	sb("pq_array_ok", "pq_array_ok", rBool)
	specBuiltins["hint"] = func(vc *VC, args []*Term) SpecVal {
		so := args[0].Sort
		n := "hint_" + mangle(string(so))
		t := vc.call(n, "Bool", args[0])
		vc.axiom(n, fmt.Sprintf("(forall ((x? %s)) (! (%s x?) :pattern ((%s x?))))", so, n, n))
		return SpecVal{t: t, typ: types.Typ[types.Bool]}
	}
	// float constants: flt(1, 10000) is the float64 nearest to 1/10000
	specBuiltins["flt"] = func(vc *VC, args []*Term) SpecVal {
		a, _ := strconv.ParseFloat(args[0].S, 64)
		b, _ := strconv.ParseFloat(args[1].S, 64)
		return SpecVal{t: vc.floatConst(strconv.FormatFloat(a/b, 'g', -1, 64)), typ: types.Typ[types.Float64]}
	}
	sb("parseFloat_ok", "parseFloat_ok", rBool)
	sb("parseInt", "parseInt", rInt)
	sb("parseInt_ok", "parseInt_ok", rBool)
	sb("tns", "tns", rInt)
	specBuiltins["time_utc"] = func(vc *VC, args []*Term) SpecVal {
		vc.timeUTC(args[0].Sort)
		return SpecVal{t: vc.call("time_utc", "Bool", args[0]), typ: types.Typ[types.Bool]}
	}
	sb("dur_ms", "dur_ms", rInt)
	sb("bytes2str", "bytes2str", rStr)
	sb("f2i", "f2i", rInt)
	sb("time_Format", "time_Format", rStr)
	sb("tree_Normalize", "tree_Normalize", rStr)
	sb("wrap_err", "wrap_err", rInt)
	specBuiltins["strings_Contains"] = func(vc *VC, args []*Term) SpecVal {
		if vc.st.strTheory {
			return SpecVal{t: app("Bool", "str.contains", args...), typ: types.Typ[types.Bool]}
		}
		return SpecVal{t: vc.call("strings_Contains", "Bool", args...), typ: types.Typ[types.Bool]}
	}
	re := func(vc *VC, a *Term) *Term {
		l, ok := vc.strLit(a)
		if !ok {
			panic(unsupported("spec: regular expression must be a literal"))
		}
		return vc.reConst(l)
	}
	specBuiltins["re_match"] = func(vc *VC, args []*Term) SpecVal {
		return SpecVal{t: vc.reMatch(re(vc, args[0]), args[1]), typ: types.Typ[types.Bool]}
	}
	specBuiltins["re_sub"] = func(vc *VC, args []*Term) SpecVal {
		return SpecVal{t: vc.call("re_sub", vc.st.Str(), re(vc, args[0]), args[1], args[2]), typ: types.Typ[types.String]}
	}
	specBuiltins["re_find"] = func(vc *VC, args []*Term) SpecVal {
		return SpecVal{t: vc.call("re_find", vc.st.Str(), re(vc, args[0]), args[1]), typ: types.Typ[types.String]}
	}
	specBuiltins["re_repl"] = func(vc *VC, args []*Term) SpecVal {
		return SpecVal{t: vc.call("re_repl", vc.st.Str(), re(vc, args[0]), args[1], args[2]), typ: types.Typ[types.String]}
	}
}

// strings.Split: opaque mode keeps it a function of its arguments with a
// non-nil, non-empty result; string mode states the decomposition.
func modelSplit(vc *VC, mc *modelCtx, args []Val) Val {
	s, sep := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
	so := vc.st.sliceOf(vc.st.Str(), nil)
	r := vc.define("split", vc.call("strings_Split", so, s, sep))
	if !vc.bound {
		if l, ok := vc.strLit(sep); ok && l != "" {
			vc.assume(tTrue, tm(fmt.Sprintf("(and (>= %s 1) (not %s))", vc.st.slen(r).S, vc.st.snil(r).S), "Bool"))
			if vc.st.strTheory {
				vc.splitFacts(s, sep, r)
			}
		}
	}
	return r
}

func modelJoin(vc *VC, mc *modelCtx, args []Val) Val {
	s, sep := vc.term(mc.st, args[0]), vc.term(mc.st, args[1])
	if els, ok := vc.sliceElems[s.S]; ok && !vc.st.strTheory {
		var ts []*Term
		for i, e := range els {
			if i > 0 {
				ts = append(ts, sep)
			}
			ts = append(ts, vc.term(mc.st, e))
		}
		if len(ts) > 0 {
			return vc.strCat(ts...)
		}
	}
	// the join depends only on the elements below the length
	j := vc.joinTerm(s, sep)
	return vc.define("join", j)
}

func (vc *VC) joinTerm(s, sep *Term) *Term {
	t := vc.call("strings_Join", vc.st.Str(), s, sep)
	so := s.Sort
	if !vc.funs["join_diff"] {
		vc.fun("join_diff", "Int", so, so)
		// extensionality: the join is determined by length and elements
		a, b := tm("a?", so), tm("b?", so)
		d := "(join_diff a? b?)"
		vc.axiom("join_diff", fmt.Sprintf("(forall ((a? %s) (b? %s) (p? %s)) (! (=> (and (= %s %s) (=> (and (<= 0 %s) (< %s %s)) (= (select %s %s) (select %s %s)))) (= (strings_Join a? p?) (strings_Join b? p?))) :pattern ((strings_Join a? p?) (strings_Join b? p?))))",
			so, so, vc.st.Str(), vc.st.slen(a).S, vc.st.slen(b).S, d, d, vc.st.slen(a).S, vc.st.sarr(a).S, d, vc.st.sarr(b).S, d))
	}
	return t
}

func modelSprintf(vc *VC, mc *modelCtx, args []Val) Val {
	fs := vc.term(mc.st, args[0])
	format, ok := vc.strLit(fs)
	va := vc.term(mc.st, args[1])
	els, ok2 := vc.sliceElems[va.S]
	if !ok2 && vc.st.slen(va).S == "0" {
		ok2 = true
	}
	if !ok || !ok2 {
		vc.externs["fmt.Sprintf with computed format"] = true
		return vc.fresh("sprintf", vc.st.Str())
	}
	var parts []*Term
	k := 0
	i := 0
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, vc.strConst(lit))
			lit = ""
		}
	}
	for i < len(format) {
		c := format[i]
		if c != '%' {
			lit += string(c)
			i++
			continue
		}
		j := i + 1
		for j < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[j])) {
			j++
		}
		if j >= len(format) {
			break
		}
		verb := format[i : j+1]
		i = j + 1
		if verb == "%%" {
			lit += "%"
			continue
		}
		if k >= len(els) {
			panic(unsupported("Sprintf arguments"))
		}
		e := els[k]
		k++
		flush()
		parts = append(parts, vc.fmtArg(mc, verb, e))
	}
	flush()
	if len(parts) == 0 {
		return vc.strConst("")
	}
	return vc.strCat(parts...)
}

func (vc *VC) fmtArg(mc *modelCtx, verb string, e Val) *Term {
	if ifc, ok := e.(*Iface); ok {
		if t, isT := ifc.val.(*Term); isT {
			if t.Sort == vc.st.Str() && (verb == "%s" || verb == "%v") {
				if b, ok := ifc.typ.(*types.Basic); ok && b.Kind() == types.String {
					return t
				}
			}
			if b, ok := ifc.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v") {
				return vc.call("itoa", vc.st.Str(), t, intT(10))
			}
		}
	}
	t := vc.term(mc.st, e)
	return vc.call("fmt_"+mangle(strings.ReplaceAll(strings.TrimPrefix(verb, "%"), "+", "plus")), vc.st.Str(), t)
}

// sort.Slice: the new content is a permutation of the old one and, when the
// comparison is a strict weak order on it, no later element is less than an
// earlier one.
func modelSort(vc *VC, mc *modelCtx, args []Val, stable bool) Val {
	ifc, ok := args[0].(*Iface)
	if !ok {
		panic(unsupported("sort.Slice of a computed interface"))
	}
	sv, ok := ifc.val.(*SliceVar)
	if !ok {
		panic(unsupported("sort.Slice of an untracked slice"))
	}
	less, ok := args[1].(*Closure)
	if !ok {
		panic(unsupported("sort.Slice with a computed comparison"))
	}
	st := mc.st
	old := vc.term(st, sv)
	n := vc.define("sortn", vc.st.slen(old))
	oa := vc.define("sortold", vc.st.sarr(old))
	na := vc.fresh("sorted", oa.Sort)
	vc.n++
	p, q := fmt.Sprintf("perm!%d", vc.n), fmt.Sprintf("iperm!%d", vc.n)
	vc.items = append(vc.items, fmt.Sprintf("(declare-fun %s (Int) Int)", p), fmt.Sprintf("(declare-fun %s (Int) Int)", q))
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) (and (<= 0 (%s i?)) (< (%s i?) %s) (= (%s (%s i?)) i?) (= (select %s i?) (select %s (%s i?))))) :pattern ((select %s i?)) :pattern ((%s i?))))", n.S, p, p, n.S, q, p, na.S, oa.S, p, na.S, p), "Bool"))
	vc.assume(tTrue, tm(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) (and (<= 0 (%s i?)) (< (%s i?) %s) (= (%s (%s i?)) i?) (= (select %s (%s i?)) (select %s i?)))) :pattern ((select %s i?)) :pattern ((%s i?))))", n.S, q, q, n.S, p, q, na.S, q, oa.S, oa.S, q), "Bool"))
	nv := vc.st.mk(old.Sort, n, na, vc.st.snil(old))
	vc.store(st, vc.svAddr(sv), nv)
	// the captured variable may be another view of the same slice: update every
	// slice variable whose content is syntactically the old value
	for k, t := range st.m {
		if strings.HasPrefix(k, "c.") && t.S == old.S && k != sv.cell {
			st.m[k] = nv
		}
	}
	if stable {
		vc.notes["sort.SliceStable: stability not modelled"] = true
	}
	lessAt := func(a, b string) *Term {
		saved := vc.bound
		vc.bound = true
		defer func() { vc.bound = saved }()
		vals, _, _ := vc.callBody(less.fn, []Val{tm(a, "Int"), tm(b, "Int")}, less.binds, st.clone(), tTrue, mc.f)
		return vc.term(st, vals[0])
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(*unsupportedErr)
				if !ok {
					panic(r)
				}
				vc.notes["sort: only the permutation is modelled at "+vc.pos(mc.ins)+" ("+u.msg+")"] = true
			}
		}()
		dom := func(v string) string { return fmt.Sprintf("(<= 0 %s) (< %s %s)", v, v, n.S) }
		ij := lessAt("si?", "sj?")
		swo := tm(fmt.Sprintf("(forall ((si? Int) (sj? Int) (sk? Int)) (=> (and %s %s %s) (and (not %s) (=> (and %s %s) %s) (=> (and (not %s) (not %s)) (not %s)))))",
			dom("si?"), dom("sj?"), dom("sk?"), lessAt("si?", "si?").S,
			ij.S, lessAt("sj?", "sk?").S, lessAt("si?", "sk?").S,
			ij.S, lessAt("sj?", "sk?").S, lessAt("si?", "sk?").S), "Bool")
		if vc.dry > 0 {
			return
		}
		r := vc.query(len(vc.items), mc.g, swo, 5000, 2)
		if r.Status == "unsat" {
			vc.addSolver(r)
			ji := lessAt("sj?", "si?")
			vc.assume(mc.g, tm(fmt.Sprintf("(forall ((si? Int) (sj? Int)) (! (=> (and %s (< si? sj?) %s) (not %s)) :pattern ((select %s si?) (select %s sj?))))",
				fmt.Sprintf("(<= 0 %s)", "si?"), fmt.Sprintf("(< sj? %s)", n.S), ji.S, na.S, na.S), "Bool"))
		} else {
			vc.dropped = append(vc.dropped, "sort comparison not shown to be a strict weak order at "+vc.pos(mc.ins))
		}
	}()
	return nil
}

// litFacts states, for every string constant met so far, that it is fixed
// text, how many single quotes it has, and its first and last byte.
func (vc *VC) litFacts() {
	vc.fun("lit_fixed", "Bool", "Str")
	for _, f := range []string{"lit_quotes", "lit_first", "lit_last"} {
		vc.fun(f, "Int", "Str")
	}
	if vc.litDone == nil {
		vc.litDone = map[string]bool{}
	}
	var ns []string
	for n := range vc.litOf {
		if !vc.litDone[n] {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		vc.litDone[n] = true
		s := vc.litOf[n]
		first, last := -1, -1
		if s != "" {
			first, last = int(s[0]), int(s[len(s)-1])
		}
		vc.pre = append(vc.pre, fmt.Sprintf("(assert (and (lit_fixed %s) (= (lit_quotes %s) %d) (= (lit_first %s) %s) (= (lit_last %s) %s)))", n, n, strings.Count(s, "'"), n, intT(int64(first)).S, n, intT(int64(last)).S))
	}
}

// modelReplace gives strings.Replace(s, old, new, 1) for a one-byte old its
// meaning when the pieces of s before the first occurrence are known.
func modelReplace(vc *VC, mc *modelCtx, args []Val) Val {
	s, o, v, n := vc.term(mc.st, args[0]), vc.term(mc.st, args[1]), vc.term(mc.st, args[2]), vc.term(mc.st, args[3])
	opaque := vc.call("strings_Replace", vc.st.Str(), s, o, v, n)
	ol, ok := vc.strLit(o)
	if !ok || len(ol) != 1 || n.S != "1" || vc.st.strTheory {
		return vc.define("replaced", opaque)
	}
	parts, ok := vc.cats[s.S]
	if !ok {
		parts = []*Term{s}
	}
	cond := tTrue
	for i, p := range parts {
		l, ok := vc.strLit(p)
		if !ok {
			cond = and(cond, not(vc.call("strings_Contains", "Bool", p, o)))
			continue
		}
		k := strings.Index(l, ol)
		if k < 0 {
			continue
		}
		out := append([]*Term{}, parts[:i]...)
		out = append(out, vc.strConst(l[:k]), v, vc.strConst(l[k+1:]))
		r := vc.strCat(append(out, parts[i+1:]...)...)
		if cond.S == "true" {
			return r
		}
		return vc.define("replaced", ite(cond, r, opaque))
	}
	return vc.define("replaced", opaque)
}
