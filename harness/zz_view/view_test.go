// props: P19

package zz_view

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/mysql/mmodel"
	"github.com/mrasu/GravityR/database/postgres/pmodel"
	"github.com/mrasu/GravityR/otel/omodel"
	h "github.com/mrasu/GravityR/zz_verifh"
	hv "github.com/mrasu/GravityR/zz_verifv"
	"gopkg.in/guregu/null.v4"
)

func fl(r *rand.Rand) null.Float {
	return null.NewFloat(float64(r.Intn(1000))/8, r.Intn(3) > 0)
}
func in(r *rand.Rand) null.Int { return null.NewInt(r.Int63n(1000), r.Intn(3) > 0) }

var n int

func my(r *rand.Rand, d int) *mmodel.ExplainAnalyzeTreeNode {
	n++
	x := &mmodel.ExplainAnalyzeTreeNode{AnalyzeResultLine: &mmodel.ExplainAnalyzeResultLine{
		Text: fmt.Sprintf("  -> Filter: x%d  (cost=1..2 rows=3)", n), TableName: h.Pick(r, []string{"", "t", "users"}),
		EstimatedInitCost: fl(r), EstimatedCost: fl(r), EstimatedReturnedRows: in(r),
		ActualTimeFirstRow: fl(r), ActualTimeAvg: fl(r), ActualReturnedRows: in(r), ActualLoopCount: in(r),
	}}
	for k := r.Intn(4); k > 0 && d > 0; k-- {
		x.Children = append(x.Children, my(r, d-1))
	}
	return x
}

func pg(r *rand.Rand, d int) *pmodel.ExplainAnalyzeTreeNode {
	n++
	x := &pmodel.ExplainAnalyzeTreeNode{SpaceSize: r.Intn(5), AnalyzeResultNode: &pmodel.ExplainAnalyzeResultNode{
		Lines: []string{fmt.Sprintf("  ->  Seq Scan %d  (cost=1..2 rows=3)", n), "  Filter: x", ""}[:1+r.Intn(3)], TableName: h.Pick(r, []string{"", "t", "users"}),
		EstimatedInitCost: fl(r), EstimatedCost: fl(r), EstimatedReturnedRows: in(r), EstimatedWidth: in(r),
		ActualTimeFirstRow: fl(r), ActualTimeAvg: fl(r), ActualReturnedRows: in(r), ActualLoopCount: in(r),
	}}
	for k := r.Intn(4); k > 0 && d > 0; k-- {
		x.Children = append(x.Children, pg(r, d-1))
	}
	return x
}

func TestVerif_P19_plans(t *testing.T) {
	r := h.Rand(193)
	c := h.N(400)
	for i := 0; i < c; i++ {
		mt := &mmodel.ExplainAnalyzeTree{Root: &mmodel.ExplainAnalyzeTreeNode{}}
		for k := r.Intn(4); k > 0; k-- {
			mt.Root.Children = append(mt.Root.Children, my(r, 3))
		}
		want := h.J(h.JSON(hv.MyView(mt)))
		h.Guard(t, want, func() {
			if got := h.J(h.JSON(mt.ToViewModel())); got != want {
				h.Fail(t, want, "shown as %s", got)
			}
		})
		pt := &pmodel.ExplainAnalyzeTree{Root: &pmodel.ExplainAnalyzeTreeNode{}}
		for k := r.Intn(4); k > 0; k-- {
			pt.Root.Children = append(pt.Root.Children, pg(r, 3))
		}
		want = h.J(h.JSON(hv.PgView(pt)))
		h.Guard(t, want, func() {
			if got := h.J(h.JSON(pt.ToViewModel())); got != want {
				h.Fail(t, want, "shown as %s", got)
			}
		})
	}
	h.Stat(t, 2*c, "random plan trees")
}

type vm map[string]interface{}

func vcols(it *dmodel.IndexTarget) interface{} {
	var cs []vm
	for _, c := range it.Columns {
		cs = append(cs, vm{"name": c.Name})
	}
	return vm{"tableName": it.TableName, "columns": cs}
}

func TestVerif_P19_results(t *testing.T) {
	r := h.Rand(194)
	c := h.N(400)
	for i := 0; i < c; i++ {
		er := &dmodel.ExaminationResult{OriginalTimeMillis: r.Int63n(100000)}
		var ws []vm
		for k := r.Intn(5); k > 0; k-- {
			cols := []string{"a", "b", "c d", "e"}[:1+r.Intn(4)]
			cols = append([]string{}, cols...)
			r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
			it := dmodel.NewIndexTarget(h.Pick(r, []string{"users", "tasks"}), cols)
			x := dmodel.NewExaminationIndexResult(it, r.Int63n(100000))
			er.IndexResults = append(er.IndexResults, x)
			ws = append(ws, vm{"executionTimeMillis": x.ExecutionTimeMillis, "indexTarget": vcols(it)})
			h.Guard(t, it, func() {
				if got, w := h.J(h.JSON(it.ToViewModel())), h.J(h.JSON(vcols(it))); got != w {
					h.Fail(t, w, "shown as %s", got)
				}
			})
		}
		want := h.J(h.JSON(vm{"originalTimeMillis": er.OriginalTimeMillis, "indexResults": ws}))
		h.Guard(t, want, func() {
			if got := h.J(h.JSON(er.ToViewModel())); got != want {
				h.Fail(t, want, "shown as %s", got)
			}
		})
	}
	h.Stat(t, c, "random examination results")
}

func span(r *rand.Rand, d int) *omodel.Span {
	id := make([]byte, 8)
	r.Read(id)
	s := &omodel.Span{Name: h.Pick(r, []string{"a", "b", ""}), TraceId: []byte{1, 0, 255}, SpanId: id, ServiceName: h.Pick(r, []string{"s1", "s2", ""}),
		StartTimeUnixNano: uint64(r.Int63n(5000000000000000)), SpanAttributes: map[string]*omodel.AnyValue{}}
	s.EndTimeUnixNano = s.StartTimeUnixNano + uint64(r.Int63n(5000000000))
	for k := r.Intn(4); k > 0 && d > 0; k-- {
		x := span(r, d-1)
		x.Parent = s
		s.Children = append(s.Children, x)
	}
	return s
}

func vspan(s *omodel.Span) vm {
	ch := []vm{}
	for _, c := range s.Children {
		ch = append(ch, vspan(c))
	}
	return vm{"name": s.Name, "spanId": hex.EncodeToString(s.SpanId), "startTimeMillis": s.StartTimeUnixNano / 1000000,
		"endTimeMillis": s.EndTimeUnixNano / 1000000, "serviceName": s.ServiceName, "children": ch}
}

func TestVerif_P19_spans(t *testing.T) {
	r := h.Rand(195)
	c := h.N(300)
	for i := 0; i < c; i++ {
		s := span(r, 3)
		cnt := map[string]int{}
		var walk func(*omodel.Span)
		walk = func(s *omodel.Span) {
			cnt[s.ServiceName]++
			for _, x := range s.Children {
				walk(x)
			}
		}
		walk(s)
		max := 0
		for _, v := range cnt {
			if v > max {
				max = v
			}
		}
		want := h.J(h.JSON(vspan(s)))
		h.Guard(t, want, func() {
			if got := h.J(h.JSON(s.ToViewModel())); got != want {
				h.Fail(t, want, "shown as %s", got)
			}
			v := omodel.NewTraceTree(s).ToCompactViewModel()
			if v.TraceId != "0100ff" || v.SameServiceAccessCount != max || h.J(h.JSON(v.Root)) != want {
				h.Fail(t, want, "shown as %s, service count %d", h.J(v), max)
			}
		})
	}
	h.Stat(t, c, "random span trees")
}
