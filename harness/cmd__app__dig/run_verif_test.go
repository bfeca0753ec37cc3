// props: P18 P19

package dig

import (
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"testing/fstest"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	v1Res "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	v1Trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	iJaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/injection"
	h "github.com/mrasu/GravityR/zz_verifh"
	"google.golang.org/grpc"
)

func vDist() {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/mermaid.js":  {Data: []byte("1")},
		"client/dist/assets/mermaid.css": {Data: []byte("b{}")},
	}
}

type vServer struct {
	api_v3.UnimplementedQueryServiceServer
	mu    sync.Mutex
	n     int
	fail  int
	late  bool
	reply func(k int) []*v1Trace.ResourceSpans
}

func (s *vServer) FindTraces(q *api_v3.FindTracesRequest, out api_v3.QueryService_FindTracesServer) error {
	s.mu.Lock()
	k := s.n
	s.n++
	s.mu.Unlock()
	if k == s.fail && !s.late {
		return fmt.Errorf("boom")
	}
	if s.reply != nil {
		for _, rs := range s.reply(k) {
			if err := out.Send(&api_v3.SpansResponseChunk{ResourceSpans: []*v1Trace.ResourceSpans{rs}}); err != nil {
				return err
			}
		}
	}
	if k == s.fail {
		return fmt.Errorf("boom")
	}
	return nil
}

func vTrace(id byte, svc string, names ...string) *v1Trace.ResourceSpans {
	rs := &v1Trace.ResourceSpans{
		Resource: &v1Res.Resource{Attributes: []*common.KeyValue{{Key: "service.name", Value: &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: svc}}}}},
	}
	ls := &v1Trace.InstrumentationLibrarySpans{}
	for i, n := range names {
		sp := &v1Trace.Span{TraceId: []byte{id, 15: 1}, SpanId: []byte{id, byte(i + 1), 7: 1}, Name: n,
			StartTimeUnixNano: 1000000 * uint64(i+1), EndTimeUnixNano: 1000000 * uint64(100+int(id))}
		if i > 0 {
			sp.ParentSpanId = []byte{id, 1, 7: 1}
			sp.Attributes = []*common.KeyValue{{Key: "db.system", Value: &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: "mysql"}}}}
		}
		ls.Spans = append(ls.Spans, sp)
	}
	rs.InstrumentationLibrarySpans = []*v1Trace.InstrumentationLibrarySpans{ls}
	return rs
}

func vWith(t *testing.T, f func(s *vServer, cli *iJaeger.Client)) {
	s := &vServer{fail: -1}
	gs := grpc.NewServer()
	api_v3.RegisterQueryServiceServer(gs, s)
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() { _ = gs.Serve(lis) }()
	defer gs.Stop()
	cli, err := iJaeger.Open(lis.Addr().String(), false)
	if err != nil {
		t.Fatal(err)
	}
	defer cli.Close()
	f(s, cli)
}

func TestVerif_P19_traces(t *testing.T) {
	vDist()
	r := h.Rand(192)
	n := h.N(30)
	vWith(t, func(s *vServer, cli *iJaeger.Client) {
		for c := 0; c < n; c++ {
			start := time.Unix(1659072300, 0)
			id := byte(0)
			kids := map[string]int{}
			var order []string
			s.n = 0
			s.reply = func(int) []*v1Trace.ResourceSpans {
				var out []*v1Trace.ResourceSpans
				for k := r.Intn(3); k > 0; k-- {
					id++
					names := []string{"root"}
					for j := r.Intn(4); j > 0; j-- {
						names = append(names, fmt.Sprintf("</script>%d", j))
					}
					out = append(out, vTrace(id, "svc", names...))
					hx := hex.EncodeToString([]byte{id, 15: 1})
					kids[hx] = len(names) - 1
					order = append(order, hx)
				}
				return out
			}
			thr := r.Intn(4)
			path := filepath.Join(t.TempDir(), "o.html")
			jr := &jaegerRunner{serviceName: "svc", count: 10, sameServiceThreshold: thr, durationMilli: 7, uiURL: "http://u", start: start, end: start.Add(2 * time.Hour)}
			h.Guard(t, thr, func() {
				if err := jr.dig(path, cli); err != nil {
					h.Fail(t, thr, "run failed: %v", err)
				}
				in := fmt.Sprintf("traces %v with children %v, threshold %d", order, kids, thr)
				rep, err := h.Report(path)
				if err != nil {
					h.Fail(t, in, "report: %v", err)
				}
				d := h.At(rep, "digData", "jaeger")
				if h.At(d, "uiPath") != "http://u" || h.At(d, "slowThresholdMilli") != 7.0 || h.At(d, "sameServiceThreshold") != float64(thr) {
					h.Fail(t, in, "settings shown: %s", h.J(d))
				}
				show := func(l interface{}) []string {
					var out []string
					ls, _ := l.([]interface{})
					for _, x := range ls {
						hx := fmt.Sprint(h.At(x, "traceId"))
						out = append(out, hx)
						ch, _ := h.At(x, "root", "children").([]interface{})
						idb, _ := hex.DecodeString(hx)
						if len(ch) != kids[hx] || h.At(x, "root", "name") != "root" || h.At(x, "root", "serviceName") != "svc" ||
							h.At(x, "root", "startTimeMillis") != 1.0 || h.At(x, "root", "endTimeMillis") != float64(100+int(idb[0])) ||
							h.At(x, "root", "spanId") != hex.EncodeToString([]byte{idb[0], 1, 7: 1}) {
							h.Fail(t, in, "trace shown: %s", h.J(x))
						}
						for i, k := range ch {
							if h.At(k, "startTimeMillis") != float64(i+2) || h.At(k, "serviceName") != "mysql (svc)" || h.At(k, "spanId") != hex.EncodeToString([]byte{idb[0], byte(i + 2), 7: 1}) {
								h.Fail(t, in, "trace shown: %s", h.J(x))
							}
						}
						want := 1.0 // children are relabelled, one service each
						if float64(kids[hx]) > want {
							want = float64(kids[hx])
						}
						if h.At(x, "sameServiceAccessCount") != want {
							h.Fail(t, in, "access count shown: %s", h.J(x))
						}
					}
					return out
				}
				var slow, same []string
				for i := len(order) - 1; i >= 0; i-- {
					slow = append(slow, order[i])
				}
				for _, o := range order {
					m := kids[o]
					if m < 1 {
						m = 1
					}
					if m > thr {
						same = append(same, o)
					}
				}
				if got := show(h.At(d, "slowTraces")); fmt.Sprint(got) != fmt.Sprint(slow) {
					h.Fail(t, in, "slow traces %v, want %v", got, slow)
				}
				if got := show(h.At(d, "sameServiceTraces")); fmt.Sprint(got) != fmt.Sprint(same) {
					h.Fail(t, in, "same-service traces %v, want %v", got, same)
				}
			})
		}
	})
	h.Stat(t, n, "runs of the jaeger command, traces read back from the report")
}

func TestVerif_P18_runs(t *testing.T) {
	vDist()
	runs := 0
	dir := t.TempDir()
	vWith(t, func(s *vServer, cli *iJaeger.Client) {
		start := time.Unix(1659072300, 0)
		jr := &jaegerRunner{serviceName: "svc", count: 10, sameServiceThreshold: 1, durationMilli: 7, uiURL: "http://u", start: start, end: start.Add(3 * time.Hour)}
		s.reply = func(k int) []*v1Trace.ResourceSpans { return []*v1Trace.ResourceSpans{vTrace(byte(k+1), "svc", "root", "x")} }
		if err := jr.dig(filepath.Join(dir, "ok.html"), cli); err != nil {
			h.Fail(t, "", "run failed: %v", err)
		}
		total := s.n
		for k := 0; k < total; k++ {
			for _, late := range []bool{false, true} {
				s.n, s.fail, s.late = 0, k, late
				path := filepath.Join(dir, fmt.Sprintf("o%d%v.html", k, late))
				before := ""
				if k%2 == 0 {
					before = "old"
					_ = os.WriteFile(path, []byte(before), 0o600)
				}
				in := fmt.Sprintf("query %d of %d fails, after its traces: %v", k, total, late)
				h.Guard(t, in, func() { h.NoReport(t, in, jr.dig(path, cli), path, before) })
				runs++
			}
		}
		s.fail = -1
		bad := func(what string, f func(path string) error) {
			path := filepath.Join(dir, what+".html")
			h.Guard(t, what, func() { h.NoReport(t, what, f(path), path, "") })
			runs++
		}
		bad("assets", func(p string) error { injection.ClientDist = fstest.MapFS{}; defer vDist(); return jr.dig(p, cli) })
		bad("dir", func(string) error { return jr.dig(filepath.Join(dir, "no", "such.html"), cli) })
		_ = cli.Close()
		bad("connection", func(p string) error { return jr.dig(p, cli) })
	})
	h.Stat(t, runs, "runs with one failing query, asset, path or connection")
}
