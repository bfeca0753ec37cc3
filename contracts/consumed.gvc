// Time of a span not covered by its children, in ns.
ghost cvd [int]bool             // any set of instants
// number of instants in [l,h) outside a; the facts below are proved by induction in lemmas/p15_count.smt2
pure cnt(a [int]bool, l mint, h mint) mint
axiom cnt_split: forall a [int]bool, l mint, m mint, h mint :: {cnt(a, l, m), cnt(a, l, h)} l <= m && m <= h ==> cnt(a, l, h) == cnt(a, l, m) + cnt(a, m, h)
axiom cnt_out: forall a [int]bool, l mint, h mint :: {cnt(a, l, h)} l <= h ==> cnt(a, l, h) == h - l || (exists x mint :: {a[x]} l <= x && x < h && a[x])
axiom cnt_in: forall a [int]bool, l mint, h mint :: {cnt(a, l, h)} l <= h ==> cnt(a, l, h) == 0 || (exists x mint :: {a[x]} l <= x && x < h && !a[x])
axiom cnt_range: forall a [int]bool, l mint, h mint :: {cnt(a, l, h)} l <= h ==> 0 <= cnt(a, l, h) && cnt(a, l, h) <= h - l
pure mn(a mint, b mint) mint = a < b ? a : b
pure covered(cs []*omodel.Span, x mint) bool = exists k int :: {cs[k]} 0 <= k < len(cs) && cs[k].StartTimeUnixNano <= x && x < cs[k].EndTimeUnixNano

func otel/omodel.Span.CalcConsumedTime(s) (r)
  prop P15
  requires wf: s.StartTimeUnixNano <= s.EndTimeUnixNano && forall k int :: {s.Children[k]} 0 <= k < len(s.Children) ==> s.Children[k] != nil && s.Children[k].StartTimeUnixNano <= s.Children[k].EndTimeUnixNano
  ensures within: r <= s.EndTimeUnixNano - s.StartTimeUnixNano
  ensures uncovered: (forall x mint :: {cvd[x]} cvd[x] <==> covered(s.Children, x)) ==> r == cnt(cvd, s.StartTimeUnixNano, s.EndTimeUnixNano)
  inv n(i $i, childTimes [][]uint64): len(childTimes) == i
  inv t(i $i, childTimes [][]uint64): forall k int :: {childTimes[k]} {s.Children[k]} 0 <= k < i ==> len(childTimes[k]) == 2 && childTimes[k][0] == mn(s.Children[k].StartTimeUnixNano, s.EndTimeUnixNano) && childTimes[k][1] == mn(s.Children[k].EndTimeUnixNano, s.EndTimeUnixNano)
  inv lo(lastEndTime uint64): s.StartTimeUnixNano <= lastEndTime && lastEndTime <= s.EndTimeUnixNano
  inv past(i $i, lastEndTime uint64, ts [][]uint64): forall p int :: {ts[p]} 0 <= p < i ==> ts[p][1] <= lastEndTime
  inv sum(i $i, consumedTime uint64, lastEndTime uint64, ts [][]uint64): (forall x mint :: {cvd[x]} cvd[x] <==> covered(s.Children, x)) && hint(cnt(cvd, s.StartTimeUnixNano, ts[i - 1][0])) ==> consumedTime == cnt(cvd, s.StartTimeUnixNano, lastEndTime)
  inv le(consumedTime uint64, lastEndTime uint64): consumedTime <= lastEndTime - s.StartTimeUnixNano

func otel/omodel.traceInfoCollectVisitor.GetMostTimeConsumedService(v) (r)
  prop P15
  ensures most: (r == "" && (forall s string :: {s in v.serviceConsumedTime} s in v.serviceConsumedTime ==> v.serviceConsumedTime[s] == 0))
     || (r in v.serviceConsumedTime && v.serviceConsumedTime[r] > 0 && (forall s string :: {s in v.serviceConsumedTime} s in v.serviceConsumedTime ==> v.serviceConsumedTime[s] <= v.serviceConsumedTime[r]))
  inv mx(i $i, maxService string, maxTime uint64): forall k int :: {$keys[k]} 0 <= k < i ==> v.serviceConsumedTime[$keys[k]] <= maxTime
  inv mv(maxService string, maxTime uint64): (maxTime == 0 && maxService == "") || (maxTime > 0 && maxService in v.serviceConsumedTime && v.serviceConsumedTime[maxService] == maxTime)

func otel/omodel.sameResourceCountVisitor.Enter(v, span) ()
  prop P14 P15
  requires nn: span != nil && v.visitedCounts != nil
  ensures mine: v.visitedCounts == old(v.visitedCounts) && span.ServiceName in v.visitedCounts
     && v.visitedCounts[span.ServiceName] == (old(span.ServiceName in v.visitedCounts) ? old(v.visitedCounts[span.ServiceName]) : 0) + 1
  ensures others: forall s string :: {s in v.visitedCounts} {v.visitedCounts[s]} s != span.ServiceName ==> (s in v.visitedCounts <==> old(s in v.visitedCounts)) && v.visitedCounts[s] == old(v.visitedCounts[s])

func otel/omodel.traceInfoCollectVisitor.Enter(v, span) ()
  prop P15
  requires nn: span != nil && v.serviceConsumedTime != nil && v.countVisitor != nil && v.countVisitor.visitedCounts != nil
  requires wf: span.StartTimeUnixNano <= span.EndTimeUnixNano && forall k int :: {span.Children[k]} 0 <= k < len(span.Children) ==> span.Children[k] != nil && span.Children[k].StartTimeUnixNano <= span.Children[k].EndTimeUnixNano
  requires room: v.serviceConsumedTime[span.ServiceName] + span.EndTimeUnixNano - span.StartTimeUnixNano <= 18446744073709551615
  ensures same: v.serviceConsumedTime == old(v.serviceConsumedTime)
  ensures mine: (forall x mint :: {cvd[x]} cvd[x] <==> covered(span.Children, x)) ==> span.ServiceName in v.serviceConsumedTime
     && v.serviceConsumedTime[span.ServiceName] == (old(span.ServiceName in v.serviceConsumedTime) ? old(v.serviceConsumedTime[span.ServiceName]) : 0) + cnt(cvd, span.StartTimeUnixNano, span.EndTimeUnixNano)
  ensures others: forall s string :: {s in v.serviceConsumedTime} {v.serviceConsumedTime[s]} s != span.ServiceName ==> (s in v.serviceConsumedTime <==> old(s in v.serviceConsumedTime)) && v.serviceConsumedTime[s] == old(v.serviceConsumedTime[s])
