// Trace search over a period: the windows asked for, and what becomes of the answers.
ghost nFind int                 // searches sent to the trace store so far
ghost fStart [int]mint          // search k: start and end of its window, in ns
ghost fEnd [int]mint
ghost fMin [int]mint            // minimum duration, in ns
ghost fService [int]string
ghost fCount [int]mint
ghost nRecv int                 // replies received so far
ghost chunkP [int]ref           // reply k (fixed in advance)
ghost nTt int                   // conversions of a reply to trees so far
ghost ttArg [int][]*v1.ResourceSpans
ghost ttP [int][]*omodel.TraceTree
ghost nCo int                   // compactions so far
ghost coArg [int]ref
ghost coP [int]ref
ghost nFc int                   // windows answered so far
ghost fcP [int][]*omodel.TraceTree

pure nsOf(s int, n int) int = s * 1000000000 + n

method github.com/jaegertracing/jaeger/proto-gen/api_v3.QueryServiceClient.FindTraces(c, ctx, in, opts) (resp, err)
  modifies bad nFind fStart fEnd fMin fService fCount
  ensures b: bad <==> old(bad) || err != nil
  ensures nn: err == nil ==> resp != nil
  ensures log: nFind == old(nFind) + 1
     && fStart == store(old(fStart), old(nFind), nsOf(in.Query.StartTimeMin.Seconds, in.Query.StartTimeMin.Nanos))
     && fEnd == store(old(fEnd), old(nFind), nsOf(in.Query.StartTimeMax.Seconds, in.Query.StartTimeMax.Nanos))
     && fMin == store(old(fMin), old(nFind), nsOf(in.Query.DurationMin.Seconds, in.Query.DurationMin.Nanos))
     && fService == store(old(fService), old(nFind), in.Query.ServiceName)
     && fCount == store(old(fCount), old(nFind), in.Query.NumTraces)

method github.com/jaegertracing/jaeger/proto-gen/api_v3.QueryService_FindTracesClient.Recv(c) (chunk, err)
  modifies bad nRecv
  ensures b: bad <==> old(bad) || (err != nil && !isEOF(err))
  ensures log: nRecv == old(nRecv) + 1
  ensures nn: err == nil ==> chunk != nil && chunk == typed(chunkP[old(nRecv)], "*api_v3.SpansResponseChunk")

func infra/jaeger.Client.FindTraces(c, param) (traces, err)
  prop P17 P18
  lean P18
  set bad = bad || err != nil
  requires nn: param != nil && param.StartTimeMin != nil && param.StartTimeMax != nil && param.DurationMin != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures sent [P17]: nFind == old(nFind) + 1
     && fStart == store(old(fStart), old(nFind), nsOf(param.StartTimeMin.Seconds, param.StartTimeMin.Nanos))
     && fEnd == store(old(fEnd), old(nFind), nsOf(param.StartTimeMax.Seconds, param.StartTimeMax.Nanos))
     && fMin == store(old(fMin), old(nFind), nsOf(param.DurationMin.Seconds, param.DurationMin.Nanos))
     && fService == store(old(fService), old(nFind), param.ServiceName)
     && fCount == store(old(fCount), old(nFind), param.NumTraces)
  ensures all [P17]: err == nil ==> len(traces) == nRecv - old(nRecv) - 1
  ensures each [P17]: err == nil ==> forall k int :: {traces[k]} 0 <= k < len(traces) ==> traces[k] != nil && traces[k].Spans == typed(chunkP[old(nRecv) + k], "*api_v3.SpansResponseChunk").ResourceSpans
  inv nobad() [P18]: bad == entry(bad)
  inv n(traces []*infra/jaeger.Trace) [P17]: len(traces) == nRecv - entry(nRecv)
  inv e(traces []*infra/jaeger.Trace) [P17]: forall k int :: {traces[k]} 0 <= k < len(traces) ==> live(traces[k]) && traces[k] != nil && traces[k].Spans == typed(chunkP[entry(nRecv) + k], "*api_v3.SpansResponseChunk").ResourceSpans

func otel/jaeger.TraceFetcher.toProtoDuration(tf, d) (r)
  prop P17
  ensures nn: r != nil
  ensures exact: nsOf(r.Seconds, r.Nanos) == d

func lib.GenerateTimeRanges(start, end, interval) (res)
  prop P17
  requires pos: interval > 0
  ensures none: len(res) == 0 <==> tns(start) >= tns(end)
  ensures first: len(res) > 0 ==> tns(res[0]) == tns(start)
  ensures step: forall k int :: {res[k]} 1 <= k < len(res) ==> tns(res[k]) == tns(res[k - 1]) + interval
  ensures inside: forall k int :: {res[k]} 0 <= k < len(res) ==> tns(start) <= tns(res[k]) && tns(res[k]) < tns(end)
  ensures covers: len(res) > 0 ==> tns(res[len(res) - 1]) + interval >= tns(end)
  inv a(t time.Time, res []time.Time): len(res) == 0 ==> tns(t) == tns(start)
  inv b(t time.Time, res []time.Time): len(res) > 0 ==> tns(res[0]) == tns(start) && tns(t) == tns(res[len(res) - 1]) + interval
  inv c(res []time.Time): forall k int :: {res[k]} 1 <= k < len(res) ==> tns(res[k]) == tns(res[k - 1]) + interval
  inv d(t time.Time, res []time.Time): (forall k int :: {res[k]} 0 <= k < len(res) ==> tns(start) <= tns(res[k]) && tns(res[k]) < tns(end)) && tns(start) <= tns(t)

func otel/jaeger.ToTraceTrees(rs) (trees)
  trusted tree building (P12); neither reads the network nor fails
  modifies nTt ttArg
  ensures log: nTt == old(nTt) + 1 && ttArg == store(old(ttArg), old(nTt), rs)
  ensures r: trees == ttP[old(nTt)]

func otel/omodel.TraceTree.Compact(tt) (r)
  trusted compaction through the visitor (P13); no i/o
  modifies nCo coArg
  ensures log: nCo == old(nCo) + 1 && coArg == store(old(coArg), old(nCo), tt)
  ensures nn: r != nil && r == typed(coP[old(nCo)], "*omodel.TraceTree")

func otel/jaeger.TraceFetcher.findCompactedTraceTrees(tf, param) (trees, err)
  prop P17 P18
  lean P18
  requires nn: param != nil && param.StartTimeMin != nil && param.StartTimeMax != nil && param.DurationMin != nil
  set nFc = nFc + 1
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures sent [P17]: nFind == old(nFind) + 1
     && fStart == store(old(fStart), old(nFind), nsOf(param.StartTimeMin.Seconds, param.StartTimeMin.Nanos))
     && fEnd == store(old(fEnd), old(nFind), nsOf(param.StartTimeMax.Seconds, param.StartTimeMax.Nanos))
     && fMin == store(old(fMin), old(nFind), nsOf(param.DurationMin.Seconds, param.DurationMin.Nanos))
     && fService == store(old(fService), old(nFind), param.ServiceName)
     && fCount == store(old(fCount), old(nFind), param.NumTraces)
  ensures n [P17]: nFc == old(nFc) + 1
  ensures replies [P17]: err == nil ==> nTt - old(nTt) == nRecv - old(nRecv) - 1
  ensures whole [P17]: err == nil ==> forall w int :: {ttArg[w]} old(nTt) <= w < nTt ==> ttArg[w] == typed(chunkP[old(nRecv) + w - old(nTt)], "*api_v3.SpansResponseChunk").ResourceSpans
  rec off(w int) int = w <= 0 ? 0 : off(w - 1) + len(ttP[nTt + w - 1])
  ensures count [P17]: err == nil ==> len(trees) == off(nTt - old(nTt)) && nCo - old(nCo) == len(trees)
  ensures each [P17]: err == nil ==> forall k int :: {trees[k]} 0 <= k < len(trees) ==> trees[k] == typed(coP[old(nCo) + k], "*omodel.TraceTree")
  ensures src [P17]: err == nil ==> forall w int, j int :: {ttP[w][j]} old(nTt) <= w < nTt && 0 <= j < len(ttP[w]) ==> coArg[old(nCo) + off(w - old(nTt)) + j] == ttP[w][j]
  assumes pr: err == nil ==> trees == fcP[old(nFc)]
  inv ot(i $i, traces []*infra/jaeger.Trace) [P17]: nTt == old(nTt) + i
  inv arg(i $i, traces []*infra/jaeger.Trace) [P17]: forall w int :: {ttArg[w]} old(nTt) <= w < nTt ==> ttArg[w] == traces[w - old(nTt)].Spans
  inv co(ct []*omodel.TraceTree) [P17]: nCo == old(nCo) + len(ct)
  inv ol(ct []*omodel.TraceTree) [P17]: len(ct) == off(nTt - old(nTt))
  inv el(ct []*omodel.TraceTree) [P17]: forall k int :: {ct[k]} 0 <= k < len(ct) ==> ct[k] == typed(coP[old(nCo) + k], "*omodel.TraceTree")
  inv om(ct []*omodel.TraceTree) [P17]: forall w int :: {off(w)} 0 <= w < nTt - old(nTt) ==> off(w) + len(ttP[old(nTt) + w]) <= len(ct)
  inv os() [P17]: forall w int, j int :: {ttP[w][j]} old(nTt) <= w < nTt && 0 <= j < len(ttP[w]) ==> coArg[old(nCo) + off(w - old(nTt)) + j] == ttP[w][j]
  inv ub(i $i, xs []*omodel.TraceTree) [P17]: i <= len(xs)
  // inner loop: the conversion under way is number nTt - 1
  inv il(i $i, ct []*omodel.TraceTree) [P17]: len(ct) == off(nTt - old(nTt) - 1) + i
  inv im(ct []*omodel.TraceTree) [P17]: forall w int :: {off(w)} 0 <= w < nTt - old(nTt) - 1 ==> off(w) + len(ttP[old(nTt) + w]) <= len(ct)
  inv is() [P17]: forall w int, j int :: {ttP[w][j]} old(nTt) <= w < nTt - 1 && 0 <= j < len(ttP[w]) ==> coArg[old(nCo) + off(w - old(nTt)) + j] == ttP[w][j]
  inv ij(i $i) [P17]: forall j int :: {ttP[nTt - 1][j]} 0 <= j < i ==> coArg[old(nCo) + off(nTt - old(nTt) - 1) + j] == ttP[nTt - 1][j]
  inv nobad() [P18]: bad == entry(bad)

func otel/jaeger.TraceFetcher.FetchCompactedTraces(tf, size, start, end, serviceName, durationMin) (res, err)
  prop P17 P18
  lean P18
  ensures surf [P18]: bad <==> old(bad) || err != nil
  inv nobad() [P18]: bad == entry(bad)
  ensures none [P17]: tns(start) >= tns(end) ==> nFind == old(nFind)
  ensures first [P17]: tns(start) < tns(end) ==> nFind > old(nFind) && fStart[old(nFind)] == tns(start)
  ensures step [P17]: forall k int :: {fStart[k]} old(nFind) < k && k < nFind ==> fStart[k] == fEnd[k - 1]
  ensures wide [P17]: forall k int :: {fEnd[k]} old(nFind) <= k < nFind ==> fStart[k] < fEnd[k] && fStart[k] < tns(end)
  ensures covers [P17]: err == nil && tns(start) < tns(end) ==> fEnd[nFind - 1] >= tns(end)
  ensures asked [P17]: forall k int :: {fService[k]} {fMin[k]} {fCount[k]} old(nFind) <= k < nFind ==> fService[k] == serviceName && fMin[k] == durationMin && fCount[k] == size
  ensures answered [P17]: err == nil ==> nFc - old(nFc) == nFind - old(nFind)
  rec off(w int) int = w <= 0 ? 0 : off(w - 1) + len(fcP[nFc + w - 1])
  ensures count [P17]: err == nil ==> len(res) == off(nFc - old(nFc))
  ensures each [P17]: err == nil ==> forall w int, j int :: {fcP[w][j]} old(nFc) <= w < nFc && 0 <= j < len(fcP[w]) ==> res[off(w - old(nFc)) + j] == fcP[w][j]
  inv fn(i $i, times []time.Time) [P17]: nFind == old(nFind) + i && nFc == old(nFc) + i
  inv fs(i $i, times []time.Time) [P17]: forall k int :: {fStart[k]} {fEnd[k]} old(nFind) <= k < nFind ==> fStart[k] == tns(times[k - old(nFind)]) && fEnd[k] == fStart[k] + 1800000000000
  inv fa() [P17]: forall k int :: {fService[k]} {fMin[k]} {fCount[k]} old(nFind) <= k < nFind ==> fService[k] == serviceName && fMin[k] == durationMin && fCount[k] == size
  inv fl(res []*omodel.TraceTree) [P17]: len(res) == off(nFc - old(nFc))
  inv fm(res []*omodel.TraceTree) [P17]: forall w int :: {off(w)} 0 <= w < nFc - old(nFc) ==> off(w) + len(fcP[old(nFc) + w]) <= len(res)
  inv fe(res []*omodel.TraceTree) [P17]: forall w int, j int :: {fcP[w][j]} old(nFc) <= w < nFc && 0 <= j < len(fcP[w]) ==> res[off(w - old(nFc)) + j] == fcP[w][j]

func github.com/jaegertracing/jaeger/proto-gen/api_v3.SpansResponseChunk.GetResourceSpans(m) (r)
  trusted generated getter
  ensures v: m != nil ==> r == m.ResourceSpans
