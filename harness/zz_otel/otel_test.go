// props: P12 P13 P14 P15

package zz_otel

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"

	v1 "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	v1Res "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	v1Trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"github.com/mrasu/GravityR/otel/jaeger"
	"github.com/mrasu/GravityR/otel/omodel"
	h "github.com/mrasu/GravityR/zz_verifh"
)

// ---- P12 ----

type rec struct {
	Id, Parent string
	Trace      string
	Name, Svc  string
	Start, End uint64
	Attrs      map[string]string
}

func str(s string) *v1.AnyValue {
	return &v1.AnyValue{Value: &v1.AnyValue_StringValue{StringValue: s}}
}

func id(r *rand.Rand) string {
	b := make([]byte, 8)
	switch r.Intn(4) {
	case 0: // many zero bytes
		b[r.Intn(8)] = byte(1 + r.Intn(255))
	default:
		r.Read(b)
		b[7] |= 1
	}
	return string(b)
}

func anyVal(r *rand.Rand, d int) (*v1.AnyValue, omodel.AnyValueDatum) {
	n := 8
	if d <= 0 {
		n = 6
	}
	switch r.Intn(n) {
	case 0:
		s := h.Pick(r, []string{"", "mysql", "x"})
		return str(s), &omodel.AnyValueString{StringValue: s}
	case 1:
		b := r.Intn(2) == 0
		return &v1.AnyValue{Value: &v1.AnyValue_BoolValue{BoolValue: b}}, &omodel.AnyValueBool{BoolValue: b}
	case 2:
		i := r.Int63() - r.Int63()
		return &v1.AnyValue{Value: &v1.AnyValue_IntValue{IntValue: i}}, &omodel.AnyValueInt{IntValue: i}
	case 3:
		f := r.Float64()
		return &v1.AnyValue{Value: &v1.AnyValue_DoubleValue{DoubleValue: f}}, &omodel.AnyValueDouble{DoubleValue: f}
	case 4:
		b := []byte(id(r))
		return &v1.AnyValue{Value: &v1.AnyValue_BytesValue{BytesValue: b}}, &omodel.AnyValueBytes{BytesValue: b}
	case 5:
		return &v1.AnyValue{}, nil
	case 6:
		var vs []*v1.AnyValue
		var ws []omodel.AnyValueDatum
		for i := r.Intn(3); i >= 0; i-- {
			v, w := anyVal(r, d-1)
			vs, ws = append(vs, v), append(ws, w)
		}
		return &v1.AnyValue{Value: &v1.AnyValue_ArrayValue{ArrayValue: &v1.ArrayValue{Values: vs}}}, &omodel.AnyValueArray{ArrayValues: ws}
	default:
		var vs []*v1.KeyValue
		ws := map[string]omodel.AnyValueDatum{}
		for i := r.Intn(3); i >= 0; i-- {
			v, w := anyVal(r, d-1)
			k := fmt.Sprint("k", i)
			vs = append(vs, &v1.KeyValue{Key: k, Value: v})
			ws[k] = w
		}
		return &v1.AnyValue{Value: &v1.AnyValue_KvlistValue{KvlistValue: &v1.KeyValueList{Values: vs}}}, &omodel.AnyValueKV{KVValue: ws}
	}
}

func TestVerif_P12_forest(t *testing.T) {
	r := h.Rand(1201)
	n := h.N(1500)
	for it := 0; it < n; it++ {
		var recs []rec
		used := map[string]bool{}
		attrs := map[string][]*v1.KeyValue{}
		want := map[string]map[string]omodel.AnyValueDatum{}
		for i, m := 0, r.Intn(16); i < m; i++ {
			x := rec{Id: id(r), Trace: "trace" + fmt.Sprint(r.Intn(2)), Name: fmt.Sprint("op", i), Svc: h.Pick(r, []string{"", "a", "b", "web"})}
			if used[x.Id] {
				continue
			}
			used[x.Id] = true
			switch k := r.Intn(8); {
			case k == 0:
				x.Parent = ""
			case k == 1:
				x.Parent = string(make([]byte, 8))
			case k == 2:
				x.Parent = "nobody" + string([]byte{byte(i), 1})
			case len(recs) > 0:
				x.Parent = recs[r.Intn(len(recs))].Id
				if r.Intn(2) == 0 {
					x.Parent = recs[len(recs)-1].Id
				}
			}
			x.Start = uint64(r.Intn(12))
			if r.Intn(10) == 0 {
				x.Start = r.Uint64()
			}
			x.End = x.Start + uint64(r.Intn(9))
			recs = append(recs, x)
			want[x.Id] = map[string]omodel.AnyValueDatum{}
			for k := r.Intn(4); k > 0; k-- {
				key := fmt.Sprint("attr", k)
				v, w := anyVal(r, 2)
				attrs[x.Id] = append(attrs[x.Id], &v1.KeyValue{Key: key, Value: v})
				want[x.Id][key] = w
			}
		}
		// arrival: shuffled, grouped into resources and libraries by service
		order := r.Perm(len(recs))
		var rs []*v1Trace.ResourceSpans
		for _, k := range order {
			x := recs[k]
			sp := &v1Trace.Span{SpanId: []byte(x.Id), ParentSpanId: []byte(x.Parent), TraceId: []byte(x.Trace), Name: x.Name, StartTimeUnixNano: x.Start, EndTimeUnixNano: x.End, Attributes: attrs[x.Id]}
			var dst *v1Trace.ResourceSpans
			for _, g := range rs {
				if svcOf(g) == x.Svc && r.Intn(3) != 0 {
					dst = g
				}
			}
			if dst == nil {
				dst = &v1Trace.ResourceSpans{}
				if x.Svc != "" || r.Intn(2) == 0 {
					dst.Resource = &v1Res.Resource{Attributes: []*v1.KeyValue{{Key: "host.name", Value: str("h")}}}
					if x.Svc != "" {
						dst.Resource.Attributes = append(dst.Resource.Attributes, &v1.KeyValue{Key: "service.name", Value: str(x.Svc)}, &v1.KeyValue{Key: "service.version", Value: str("1")})
					}
				}
				rs = append(rs, dst)
			}
			if len(dst.InstrumentationLibrarySpans) == 0 || r.Intn(3) == 0 {
				dst.InstrumentationLibrarySpans = append(dst.InstrumentationLibrarySpans, &v1Trace.InstrumentationLibrarySpans{})
			}
			l := dst.InstrumentationLibrarySpans[r.Intn(len(dst.InstrumentationLibrarySpans))]
			l.Spans = append(l.Spans, sp)
		}
		in := h.J(recs)
		h.Guard(t, in, func() {
			trees := jaeger.ToTraceTrees(rs)
			byId := map[string]rec{}
			for _, x := range recs {
				byId[x.Id] = x
			}
			seen := map[string]int{}
			var walk func(s, parent *omodel.Span)
			walk = func(s, parent *omodel.Span) {
				x, ok := byId[string(s.SpanId)]
				if !ok {
					h.Fail(t, in, "span %x was not received", s.SpanId)
				}
				seen[x.Id]++
				if seen[x.Id] > 1 {
					h.Fail(t, in, "span %x occurs twice", s.SpanId)
				}
				if s.Name != x.Name || string(s.TraceId) != x.Trace || s.StartTimeUnixNano != x.Start || s.EndTimeUnixNano != x.End || s.ServiceName != x.Svc {
					h.Fail(t, in, "span %x changed: %+v", s.SpanId, s)
				}
				if len(s.SpanAttributes) != len(want[x.Id]) {
					h.Fail(t, in, "span %x has attributes %s", s.SpanId, h.J(s.SpanAttributes))
				}
				for k, w := range want[x.Id] {
					if g := s.SpanAttributes[k]; g == nil || !reflect.DeepEqual(g.Val, w) {
						h.Fail(t, in, "attribute %s of span %x is %s, want %s", k, s.SpanId, h.J(g), h.J(w))
					}
				}
				p, known := byId[x.Parent]
				if parent == nil && known {
					h.Fail(t, in, "span %x is a root although its parent was received", s.SpanId)
				}
				if parent != nil && (!known || p.Id != string(parent.SpanId)) {
					h.Fail(t, in, "span %x hangs below %x", s.SpanId, parent.SpanId)
				}
				if s.Parent != parent {
					h.Fail(t, in, "span %x does not point to its parent", s.SpanId)
				}
				for i, c := range s.Children {
					if i > 0 && s.Children[i-1].StartTimeUnixNano > c.StartTimeUnixNano {
						h.Fail(t, in, "children of %x are not ordered by start time", s.SpanId)
					}
					walk(c, s)
				}
			}
			for _, tr := range trees {
				walk(tr.Root, nil)
			}
			if len(seen) != len(recs) {
				h.Fail(t, in, "%d of %d spans in the forest", len(seen), len(recs))
			}
		})
	}
	h.Stat(t, n, "span sets of up to 16 spans, shuffled and regrouped")
}

func svcOf(g *v1Trace.ResourceSpans) string {
	if g.Resource == nil {
		return ""
	}
	for _, a := range g.Resource.Attributes {
		if a.Key == "service.name" {
			return a.Value.GetStringValue()
		}
	}
	return ""
}

// ---- generated trees for P13..P15 ----

type tree struct {
	Id       int
	Svc, Db  string // Db: "-" no attribute
	Start    uint64
	End      uint64
	Children []*tree
}

var svcs = []string{"a", "b", "c", ""}

func genTree(r *rand.Rand, next *int, depth int) *tree {
	*next++
	x := &tree{Id: *next, Svc: svcs[r.Intn(len(svcs))], Db: "-"}
	if r.Intn(3) == 0 {
		x.Db = h.Pick(r, []string{"mysql", "redis", ""})
	}
	x.Start = uint64(10 + r.Intn(30))
	x.End = x.Start + uint64(r.Intn(30))
	if depth > 0 {
		for i := r.Intn(4); i > 0; i-- {
			x.Children = append(x.Children, genTree(r, next, depth-1))
		}
	}
	return x
}

func (x *tree) span(parent *omodel.Span) *omodel.Span {
	s := &omodel.Span{Parent: parent, Name: fmt.Sprint("op", x.Id), TraceId: []byte{7}, SpanId: []byte{byte(x.Id >> 8), byte(x.Id), 1},
		StartTimeUnixNano: x.Start, EndTimeUnixNano: x.End, ServiceName: x.Svc, SpanAttributes: map[string]*omodel.AnyValue{"id": {Val: &omodel.AnyValueInt{IntValue: int64(x.Id)}}}}
	if x.Db != "-" {
		s.SpanAttributes["db.system"] = &omodel.AnyValue{Val: &omodel.AnyValueString{StringValue: x.Db}}
	}
	for _, c := range x.Children {
		s.Children = append(s.Children, c.span(s))
	}
	return s
}

// compacted: the kept descendants of x, in order
func (x *tree) compacted(parent *tree) []*tree {
	var kids []*tree
	for _, c := range x.Children {
		kids = append(kids, c.compacted(x)...)
	}
	leafDb := len(x.Children) == 0 && x.Db != "-"
	if parent != nil && parent.Svc == x.Svc && !leafDb {
		return kids
	}
	y := *x
	y.Children = kids
	if leafDb {
		y.Svc = x.Db + " (" + x.Svc + ")"
	}
	return []*tree{&y}
}

type flatSpan struct {
	Depth int
	Name  string
	Trace string
	Id    string
	Svc   string
	S, E  uint64
	Attr  string
}

func flatten(s *omodel.Span, d int, out *[]flatSpan) {
	*out = append(*out, flatSpan{d, s.Name, string(s.TraceId), string(s.SpanId), s.ServiceName, s.StartTimeUnixNano, s.EndTimeUnixNano, h.J(s.SpanAttributes)})
	for _, c := range s.Children {
		flatten(c, d+1, out)
	}
}

func flat(s *omodel.Span) []flatSpan {
	var o []flatSpan
	if s != nil {
		flatten(s, 0, &o)
	}
	return o
}

func TestVerif_P13_compact(t *testing.T) {
	r := h.Rand(1301)
	n := h.N(3000)
	for i := 0; i < n; i++ {
		k := 0
		x := genTree(r, &k, r.Intn(6))
		orig := x.span(nil)
		before := flat(orig)
		in := h.J(x)
		h.Guard(t, in, func() {
			got := omodel.NewTraceTree(orig).Compact()
			want := x.compacted(nil)[0].span(nil)
			if !reflect.DeepEqual(flat(got.Root), flat(want)) {
				h.Fail(t, in, "compacted to %v, want %v", flat(got.Root), flat(want))
			}
			if !reflect.DeepEqual(before, flat(orig)) {
				h.Fail(t, in, "the original trace was modified")
			}
			var shared func(a *omodel.Span)
			set := map[*omodel.Span]bool{}
			var coll func(a *omodel.Span)
			coll = func(a *omodel.Span) {
				set[a] = true
				for _, c := range a.Children {
					coll(c)
				}
			}
			coll(orig)
			shared = func(a *omodel.Span) {
				if set[a] {
					h.Fail(t, in, "the compacted trace shares span %s with the original", a.Name)
				}
				for _, c := range a.Children {
					shared(c)
				}
			}
			shared(got.Root)
		})
	}
	h.Stat(t, n, "trace trees up to depth 6")
}

// ---- P14 ----

func (x *tree) counts(m map[string]int) {
	m[x.Svc]++
	for _, c := range x.Children {
		c.counts(m)
	}
}

func TestVerif_P14_picks(t *testing.T) {
	r := h.Rand(1401)
	n := h.N(1500)
	for i := 0; i < n; i++ {
		var xs []*tree
		var traces []*omodel.TraceTree
		idx := map[*omodel.TraceTree]int{}
		span := 1 + r.Intn(40)
		for k, m := 0, r.Intn(40); k < m; k++ {
			id := 0
			x := genTree(r, &id, r.Intn(4))
			x.Start = r.Uint64() >> 20
			x.End = x.Start + uint64(r.Intn(span))
			if r.Intn(12) == 0 {
				x.End = x.Start + r.Uint64()>>10
			}
			xs = append(xs, x)
			tt := omodel.NewTraceTree(x.span(nil))
			idx[tt] = k
			traces = append(traces, tt)
		}
		num := r.Intn(45)
		th := r.Intn(8)
		type cse struct {
			Num, Threshold int
			Traces         []*tree
		}
		in := h.J(cse{num, th, xs})
		orig := append([]*omodel.TraceTree(nil), traces...)
		h.Guard(t, in, func() {
			tp := jaeger.NewTracePicker(traces)
			slow := tp.PickSlowTraces(num)
			var ds, got []uint64
			for _, x := range xs {
				ds = append(ds, x.End-x.Start)
			}
			sort.Slice(ds, func(a, b int) bool { return ds[a] > ds[b] })
			if len(ds) > num {
				ds = ds[:num]
			}
			seen := map[*omodel.TraceTree]bool{}
			for _, s := range slow {
				if _, ok := idx[s]; !ok || seen[s] {
					h.Fail(t, in, "a reported slow trace is not an input trace or is reported twice")
				}
				seen[s] = true
				got = append(got, s.Root.EndTimeUnixNano-s.Root.StartTimeUnixNano)
			}
			if len(got) != len(ds) || len(ds) > 0 && !reflect.DeepEqual(got, ds) {
				h.Fail(t, in, "slow traces last %v, want %v", got, ds)
			}
			var wantS, gotS []int
			for k, x := range xs {
				m := map[string]int{}
				x.counts(m)
				mx := 0
				for _, v := range m {
					if v > mx {
						mx = v
					}
				}
				if mx > th {
					wantS = append(wantS, k)
				}
			}
			for _, s := range tp.PickSameServiceAccessTraces(th) {
				gotS = append(gotS, idx[s])
			}
			if !reflect.DeepEqual(wantS, gotS) {
				h.Fail(t, in, "same-service traces %v, want %v", gotS, wantS)
			}
			if !reflect.DeepEqual(orig, traces) {
				h.Fail(t, in, "the list of traces was modified")
			}
		})
	}
	h.Stat(t, n, "lists of up to 40 traces, limits up to 44, thresholds up to 7")
}

// ---- P15 ----

func (x *tree) consumed() uint64 {
	n := uint64(0)
	for p := x.Start; p < x.End; p++ {
		cov := false
		for _, c := range x.Children {
			cov = cov || c.Start <= p && p < c.End
		}
		if !cov {
			n++
		}
	}
	return n
}

func (x *tree) sums(m map[string]uint64) {
	m[x.Svc] += x.consumed()
	for _, c := range x.Children {
		c.sums(m)
	}
}

func TestVerif_P15_consumed(t *testing.T) {
	r := h.Rand(1501)
	n := h.N(3000)
	for i := 0; i < n; i++ {
		k := 0
		x := genTree(r, &k, r.Intn(4))
		if r.Intn(2) == 0 {
			x.Children = nil
			for j := r.Intn(7); j > 0; j-- {
				k++
				c := &tree{Id: k, Svc: "a", Db: "-", Start: uint64(r.Intn(70))}
				c.End = c.Start + uint64(r.Intn(20))
				x.Children = append(x.Children, c)
			}
		}
		in := h.J(x)
		h.Guard(t, in, func() {
			s := x.span(nil)
			before := flat(s)
			var walk func(x *tree, s *omodel.Span)
			walk = func(x *tree, s *omodel.Span) {
				if g, w := s.CalcConsumedTime(), x.consumed(); g != w {
					h.Fail(t, h.J(x), "consumed time %d, want %d", g, w)
				}
				for i := range x.Children {
					walk(x.Children[i], s.Children[i])
				}
			}
			walk(x, s)
			m := map[string]uint64{}
			x.sums(m)
			mx := uint64(0)
			for _, v := range m {
				if v > mx {
					mx = v
				}
			}
			vm := omodel.NewTraceTree(s).ToCompactViewModel()
			if mx > 0 {
				if v, ok := m[vm.TimeConsumingServiceName]; !ok || v != mx {
					h.Fail(t, in, "named %q as most time-consuming, sums are %v", vm.TimeConsumingServiceName, m)
				}
			} else if _, ok := m[vm.TimeConsumingServiceName]; !ok && vm.TimeConsumingServiceName != "" {
				h.Fail(t, in, "named %q, which is no service of the trace", vm.TimeConsumingServiceName)
			}
			cs := map[string]int{}
			x.counts(cs)
			mc := 0
			for _, v := range cs {
				if v > mc {
					mc = v
				}
			}
			if vm.SameServiceAccessCount != mc || vm.TraceId != hex.EncodeToString(s.TraceId) {
				h.Fail(t, in, "trace %s, %d accesses to one service, want %d", vm.TraceId, vm.SameServiceAccessCount, mc)
			}
			if !reflect.DeepEqual(before, flat(s)) {
				h.Fail(t, in, "the trace was modified")
			}
		})
	}
	h.Stat(t, n, "span trees with overlapping, nested and overhanging children")
}
