// Compaction of one trace: what is kept, what a kept span looks like, and where it is attached.
pure keeps(s *omodel.Span) bool = s.Parent == nil || s.Parent.ServiceName != s.ServiceName || leafDb(s)
pure leafDb(s *omodel.Span) bool = len(s.Children) == 0 && "db.system" in s.SpanAttributes

pure sameIds(s *omodel.Span, other *omodel.Span) bool = bytes2str(s.TraceId) == bytes2str(other.TraceId) && bytes2str(s.SpanId) == bytes2str(other.SpanId)
pure dbOf(s *omodel.Span) string = ("db.system" in s.SpanAttributes) && s.SpanAttributes["db.system"] != nil && tagis(s.SpanAttributes["db.system"].Val, "*otel/omodel.AnyValueString") ? as(s.SpanAttributes["db.system"].Val, "*otel/omodel.AnyValueString").StringValue : ""
pure topOf(c *omodel.traceCompacter) *omodel.Span = c.parentStack.vals[len(c.parentStack.vals) - 1]
pure topOf0(vals []*omodel.Span) *omodel.Span = vals[len(vals) - 1]
pure copyOf(r *omodel.Span, s *omodel.Span) bool = r != nil && r.Name == s.Name && r.TraceId == s.TraceId && r.SpanId == s.SpanId && r.StartTimeUnixNano == s.StartTimeUnixNano && r.EndTimeUnixNano == s.EndTimeUnixNano && r.SpanAttributes == s.SpanAttributes && r.Parent == nil && len(r.Children) == 0

func otel/omodel.Span.IsLastDbSpan(s) (r)
  prop P13
  main P13
  requires nn: s != nil
  ensures leaf: r <==> leafDb(s)

func otel/omodel.Span.GetDBSystem(s) (r)
  prop P13
  main P13
  requires nn: s != nil
  ensures db: r == dbOf(s)

func otel/omodel.Span.IsSame(s, other) (r)
  prop P13
  main P13
  requires nn: s != nil && other != nil
  ensures ids: r <==> sameIds(s, other)

func otel/omodel.Span.ShallowCopyWithoutDependency(s) (r)
  prop P13
  main P13
  frame
  requires nn: s != nil
  ensures new: r != nil && !existed(r) && live(r)
  ensures self: copyOf(r, s) && r.ServiceName == s.ServiceName

func otel/omodel.traceCompacter.remains(c, span) (r)
  prop P13
  main P13
  requires nn: span != nil
  ensures kept: r <==> keeps(span)

func otel/omodel.traceCompacter.Enter(c, span)
  prop P13
  main P13
  requires nn: c != nil && span != nil && c.parentStack != nil && len(c.parentStack.vals) > 0
  requires st: forall k int :: {c.parentStack.vals[k]} 0 <= k < len(c.parentStack.vals) ==> c.parentStack.vals[k] != nil && live(c.parentStack.vals[k])
  // the nearest kept ancestor is on top
  ensures stack: c.parentStack == old(c.parentStack)
  ensures skip: !old(keeps(span)) ==> c.parentStack.vals == old(c.parentStack.vals)
  ensures push: old(keeps(span)) ==> len(c.parentStack.vals) == old(len(c.parentStack.vals)) + 1
  ensures below: forall k int :: {c.parentStack.vals[k]} 0 <= k < old(len(c.parentStack.vals)) ==> c.parentStack.vals[k] == old(c.parentStack.vals)[k]
  ensures copy: old(keeps(span)) ==> copyOf(c.parentStack.vals[old(len(c.parentStack.vals))], span) && !existed(c.parentStack.vals[old(len(c.parentStack.vals))])
  ensures label: old(keeps(span) && leafDb(span)) ==> c.parentStack.vals[old(len(c.parentStack.vals))].ServiceName == dbOf(span) + " (" + span.ServiceName + ")"
  ensures svc: old(keeps(span) && !leafDb(span)) ==> c.parentStack.vals[old(len(c.parentStack.vals))].ServiceName == span.ServiceName
  ensures attach: old(keeps(span)) ==> len(old(topOf(c)).Children) == old(len(topOf(c).Children)) + 1 && old(topOf(c)).Children[old(len(topOf(c).Children))] == c.parentStack.vals[old(len(c.parentStack.vals))]
  ensures order: forall k int :: {old(topOf(c)).Children[k]} 0 <= k < old(len(topOf(c).Children)) ==> old(topOf(c)).Children[k] == old(topOf(c).Children)[k]
  // nothing else is touched
  ensures kids: forall o *omodel.Span :: {o.Children} existed(o) && (o != old(topOf(c)) || !old(keeps(span))) ==> o.Children == old(o.Children)
  ensures text: forall o *omodel.Span :: {o.Name} existed(o) ==> o.Name == old(o.Name)
  ensures ids: forall o *omodel.Span :: {o.SpanId} existed(o) ==> o.SpanId == old(o.SpanId)
  ensures trid: forall o *omodel.Span :: {o.TraceId} existed(o) ==> o.TraceId == old(o.TraceId)
  ensures service: forall o *omodel.Span :: {o.ServiceName} existed(o) ==> o.ServiceName == old(o.ServiceName)
  ensures starts: forall o *omodel.Span :: {o.StartTimeUnixNano} existed(o) ==> o.StartTimeUnixNano == old(o.StartTimeUnixNano)
  ensures ends: forall o *omodel.Span :: {o.EndTimeUnixNano} existed(o) ==> o.EndTimeUnixNano == old(o.EndTimeUnixNano)
  ensures attrs: forall o *omodel.Span :: {o.SpanAttributes} existed(o) ==> o.SpanAttributes == old(o.SpanAttributes)
  ensures parents: forall o *omodel.Span :: {o.Parent} existed(o) ==> o.Parent == old(o.Parent)

func otel/omodel.traceCompacter.Leave(c, span)
  prop P13
  main P13
  requires nn: c != nil && span != nil && c.parentStack != nil && len(c.parentStack.vals) > 0
  requires st: forall k int :: {c.parentStack.vals[k]} 0 <= k < len(c.parentStack.vals) ==> c.parentStack.vals[k] != nil
  ensures stack: c.parentStack == old(c.parentStack)
  ensures pop: sameIds(topOf0(old(c.parentStack.vals)), span) ==> len(c.parentStack.vals) == old(len(c.parentStack.vals)) - 1
  ensures keep: !sameIds(topOf0(old(c.parentStack.vals)), span) ==> len(c.parentStack.vals) == old(len(c.parentStack.vals))
  ensures below: forall k int :: {c.parentStack.vals[k]} 0 <= k < len(c.parentStack.vals) ==> c.parentStack.vals[k] == old(c.parentStack.vals)[k]
  ensures text: forall o *omodel.Span :: {o.Name} o.Name == old(o.Name)
  ensures kids: forall o *omodel.Span :: {o.Children} o.Children == old(o.Children)

bounded P13 visitRecursive and Compact (the traversal that feeds Enter and Leave): generated traces against a reference, TestVerif_P13_compact
