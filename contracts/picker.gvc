// Choosing the traces to report.
// the highest number of spans one service has in the trace
pure msac(tt *omodel.TraceTree) int

func otel/omodel.sameResourceCountVisitor.GetMax(v) (r)
  prop P14 P15
  ensures top: forall s string :: {s in v.visitedCounts} s in v.visitedCounts ==> v.visitedCounts[s] <= r
  ensures some: r == 0 || (exists s string :: {s in v.visitedCounts} s in v.visitedCounts && v.visitedCounts[s] == r)
  inv vl(i $i, result []int): len(result) == i
  inv vv(i $i, result []int): forall k int :: {result[k]} {$keys[k]} 0 <= k < i ==> result[k] == v.visitedCounts[$keys[k]]
  inv mx(i $i, max int, cs []int): forall k int :: {cs[k]} 0 <= k < i && k < len(cs) ==> cs[k] <= max
  inv ex(i $i, max int, cs []int): exists k int :: {cs[k]} 0 <= k < len(cs) && cs[k] == max

func otel/omodel.TraceTree.MaxSameServiceAccessCount(tt) (r)
  trusted the traversal through the visitor
  ensures v: r == msac(tt)

func otel/jaeger.TracePicker.PickSameServiceAccessTraces(tp, threshold) (r)
  prop P14
  rec kept(k int) int = k <= 0 ? 0 : kept(k - 1) + (msac(tp.traces[k - 1]) > threshold ? 1 : 0)
  ensures count: len(r) == kept(len(tp.traces))
  ensures each: forall k int :: {tp.traces[k]} 0 <= k < len(tp.traces) && msac(tp.traces[k]) > threshold ==> r[kept(k)] == tp.traces[k]
  inv n(i $i, result []*omodel.TraceTree): len(result) == kept(i)
  inv e(i $i, result []*omodel.TraceTree): forall k int :: {tp.traces[k]} 0 <= k < i && msac(tp.traces[k]) > threshold ==> kept(k) < len(result) && result[kept(k)] == tp.traces[k]

bounded P14 the traversal that feeds the counting visitor (visitRecursive) and the bounded heap behind PickSlowTraces (container/heap): generated traces against a reference, TestVerif_P14_picks
