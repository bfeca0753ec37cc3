// props: P17

package zz_fetch

import (
	"encoding/hex"
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/gogo/protobuf/types"
	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	v1Trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	iJaeger "github.com/mrasu/GravityR/infra/jaeger"
	"github.com/mrasu/GravityR/lib"
	"github.com/mrasu/GravityR/otel/jaeger"
	h "github.com/mrasu/GravityR/zz_verifh"
	"google.golang.org/grpc"
)

func TestVerif_P17_ranges(t *testing.T) {
	r := h.Rand(17)
	n := h.N(3000)
	for c := 0; c < n; c++ {
		start := time.Unix(r.Int63n(2000000000), r.Int63n(1000000000))
		iv := time.Duration(1 + r.Int63n(int64(time.Hour)))
		k := r.Intn(12)
		end := start.Add(time.Duration(k) * iv)
		switch r.Intn(4) {
		case 0:
			end = end.Add(time.Duration(r.Int63n(int64(iv))))
		case 1:
			end = end.Add(-1)
		case 2:
			end = end.Add(1)
		}
		in := fmt.Sprintf("start=%s end=%s interval=%s", start.UTC().Format(time.RFC3339Nano), end.UTC().Format(time.RFC3339Nano), iv)
		h.Guard(t, in, func() {
			got := lib.GenerateTimeRanges(start, end, iv)
			cur := start
			for i, g := range got {
				if !g.Equal(cur) {
					h.Fail(t, in, "window %d starts at %s, want %s", i, g, cur)
				}
				if !g.Before(end) {
					h.Fail(t, in, "window %d starts at %s, not before the end", i, g)
				}
				cur = cur.Add(iv)
			}
			if cur.Before(end) {
				h.Fail(t, in, "%d windows end at %s, before the end", len(got), cur)
			}
		})
	}
	h.Stat(t, n, "random periods and intervals")
}

type server struct {
	api_v3.UnimplementedQueryServiceServer
	mu    sync.Mutex
	qs    []*api_v3.TraceQueryParameters
	reply func(i int) [][]byte // span ids of the chunks of the i-th query
	fail  func(i int) error
}

func (s *server) FindTraces(q *api_v3.FindTracesRequest, out api_v3.QueryService_FindTracesServer) error {
	s.mu.Lock()
	i := len(s.qs)
	s.qs = append(s.qs, q.Query)
	s.mu.Unlock()
	for _, id := range s.reply(i) {
		err := out.Send(&api_v3.SpansResponseChunk{ResourceSpans: []*v1Trace.ResourceSpans{{
			InstrumentationLibrarySpans: []*v1Trace.InstrumentationLibrarySpans{{
				Spans: []*v1Trace.Span{{TraceId: id, SpanId: id[:8], Name: "n"}},
			}},
		}}})
		if err != nil {
			return err
		}
	}
	return s.fail(i)
}

func at(ts *types.Timestamp) time.Time { return time.Unix(ts.GetSeconds(), int64(ts.GetNanos())) }

func TestVerif_P17_fetch(t *testing.T) {
	r := h.Rand(171)
	srv := &server{}
	gs := grpc.NewServer()
	api_v3.RegisterQueryServiceServer(gs, srv)
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() { _ = gs.Serve(lis) }()
	defer gs.Stop()
	cli, err := iJaeger.Open(lis.Addr().String(), false)
	if err != nil {
		t.Fatal(err)
	}
	defer cli.Close()

	n := h.N(150)
	for c := 0; c < n; c++ {
		start := time.Unix(1000000000+r.Int63n(1000000000), []int64{0, 0, r.Int63n(1000000000), 999999999}[r.Intn(4)]).UTC()
		end := start.Add(time.Duration(r.Intn(8)) * 30 * time.Minute)
		switch r.Intn(4) {
		case 0:
			end = end.Add(time.Duration(r.Int63n(int64(30 * time.Minute))))
		case 1:
			end = end.Add(1)
		case 2:
			end = end.Add(-1)
		}
		dur := time.Duration(r.Int63n(int64(5 * time.Second)))
		switch r.Intn(5) {
		case 0:
			dur = time.Duration(r.Intn(7)) * time.Second
		case 1:
			dur = time.Duration(r.Int63n(int64(20000 * time.Hour)))
		case 2:
			dur = time.Duration(1+r.Intn(3))*time.Second - 1
		}
		size := int32(r.Intn(2000))
		svc := h.Pick(r, []string{"", "svc", "my service"})
		failAt := -1
		if r.Intn(4) == 0 {
			failAt = r.Intn(4)
		}
		var sent []string
		srv.mu.Lock()
		srv.qs = nil
		srv.mu.Unlock()
		srv.reply = func(i int) [][]byte {
			var out [][]byte
			for k := r.Intn(4); k > 0; k-- {
				id := make([]byte, 16)
				r.Read(id)
				id[7] |= 1
				out = append(out, id)
				sent = append(sent, hex.EncodeToString(id))
			}
			return out
		}
		srv.fail = func(i int) error {
			if i == failAt {
				return fmt.Errorf("boom")
			}
			return nil
		}
		in := fmt.Sprintf("start=%s end=%s min duration=%s count=%d service=%q failing query=%d", start.Format(time.RFC3339Nano), end.Format(time.RFC3339Nano), dur, size, svc, failAt)
		h.Guard(t, in, func() {
			got, err := jaeger.NewTraceFetcher(cli).FetchCompactedTraces(size, start, end, svc, dur)
			cur := start
			for i, q := range srv.qs {
				a, b := at(q.StartTimeMin), at(q.StartTimeMax)
				if !a.Equal(cur) {
					h.Fail(t, in, "window %d starts at %s, want %s", i, a.UTC(), cur)
				}
				if !a.Before(end) {
					h.Fail(t, in, "window %d starts at %s, not before the end", i, a.UTC())
				}
				if !a.Before(b) {
					h.Fail(t, in, "window %d is %s to %s", i, a.UTC(), b.UTC())
				}
				cur = b.UTC()
				if q.ServiceName != svc || q.NumTraces != size || q.OperationName != "" || len(q.Attributes) != 0 {
					h.Fail(t, in, "query %d is %s", i, h.J(q))
				}
				if d := time.Duration(q.DurationMin.GetSeconds())*time.Second + time.Duration(q.DurationMin.GetNanos()); d != dur {
					h.Fail(t, in, "query %d has minimum duration %s", i, d)
				}
				if q.DurationMax.GetSeconds() != 0 || q.DurationMax.GetNanos() != 0 {
					h.Fail(t, in, "query %d is %s", i, h.J(q))
				}
			}
			if failAt >= 0 && failAt < len(srv.qs) {
				if err == nil {
					h.Fail(t, in, "a failing query gave %d traces and no error", len(got))
				}
				return
			}
			if err != nil {
				h.Fail(t, in, "error %v", err)
			}
			if cur.Before(end) {
				h.Fail(t, in, "windows end at %s, before the end", cur)
			}
			var ids []string
			for _, g := range got {
				ids = append(ids, hex.EncodeToString(g.Root.TraceId))
			}
			if h.J(ids) != h.J(sent) {
				h.Fail(t, in, "traces %s reported, %s received", h.J(ids), h.J(sent))
			}
		})
	}
	h.Stat(t, n, "fetches against a recording query service")
}
