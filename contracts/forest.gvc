// Received spans to a forest.
// all bytes of the parent id are zero: no parent
pure np(s []byte) bool
axiom np_def [np(]: forall s []byte :: {np(s)} np(s) <==> (forall k int :: {s[k]} 0 <= k < len(s) ==> s[k] == 0)
ghost fam [ref]bool                // the spans made by the conversion
ghost nd [string]*omodel.Span      // the span made for an id
ghost src [string]*v1.Span    // and the received span it was made from
// the outermost level of an attribute value
pure anyNil(x any, v *v1.AnyValue) bool = ((v == nil || v.Value == nil) ==> x == nil)
pure anyStr(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_StringValue") ==> tagis(x, "*otel/omodel.AnyValueString") && live(as(x, "*otel/omodel.AnyValueString")) && as(x, "*otel/omodel.AnyValueString").StringValue == as(v.Value, "*v1.AnyValue_StringValue").StringValue)
pure anyBool(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_BoolValue") ==> tagis(x, "*otel/omodel.AnyValueBool") && live(as(x, "*otel/omodel.AnyValueBool")) && as(x, "*otel/omodel.AnyValueBool").BoolValue == as(v.Value, "*v1.AnyValue_BoolValue").BoolValue)
pure anyInt(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_IntValue") ==> tagis(x, "*otel/omodel.AnyValueInt") && live(as(x, "*otel/omodel.AnyValueInt")) && as(x, "*otel/omodel.AnyValueInt").IntValue == as(v.Value, "*v1.AnyValue_IntValue").IntValue)
pure anyDbl(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_DoubleValue") ==> tagis(x, "*otel/omodel.AnyValueDouble") && live(as(x, "*otel/omodel.AnyValueDouble")) && as(x, "*otel/omodel.AnyValueDouble").DoubleValue == as(v.Value, "*v1.AnyValue_DoubleValue").DoubleValue)
pure anyBytes(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_BytesValue") ==> tagis(x, "*otel/omodel.AnyValueBytes") && live(as(x, "*otel/omodel.AnyValueBytes")) && as(x, "*otel/omodel.AnyValueBytes").BytesValue == as(v.Value, "*v1.AnyValue_BytesValue").BytesValue)
pure anyArr(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_ArrayValue") ==> tagis(x, "*otel/omodel.AnyValueArray") && live(as(x, "*otel/omodel.AnyValueArray")) && len(as(x, "*otel/omodel.AnyValueArray").ArrayValues) == len(as(v.Value, "*v1.AnyValue_ArrayValue").ArrayValue.Values))
pure anyKv(x any, v *v1.AnyValue) bool = (v != nil && tagis(v.Value, "*v1.AnyValue_KvlistValue") ==> tagis(x, "*otel/omodel.AnyValueKV") && live(as(x, "*otel/omodel.AnyValueKV")))
pure anyOf(x any, v *v1.AnyValue) bool = anyNil(x, v) && anyStr(x, v) && anyBool(x, v) && anyInt(x, v) && anyDbl(x, v) && anyBytes(x, v) && anyArr(x, v) && anyKv(x, v)

func otel/jaeger.v1Converter.isRootSpan(c, span) (r)
  prop P12
  main P12
  requires nn: span != nil
  frame
  ensures zero: r <==> np(span.ParentSpanId)
  inv z(i $i): forall k int :: {span.ParentSpanId[k]} 0 <= k < i ==> span.ParentSpanId[k] == 0

func otel/jaeger.v1Converter.toOmodelSpan(c, s, rs) (r)
  prop P12
  main P12
  frame
  modifies nd src fam
  set fam = store(fam, r, true)
  set nd = store(nd, bytes2str(s.SpanId), r)
  set src = store(src, bytes2str(s.SpanId), s)
  ensures nd: nd == store(old(nd), bytes2str(s.SpanId), r) && src == store(old(src), bytes2str(s.SpanId), s) && fam == store(old(fam), r, true)
  requires nn: s != nil && rs != nil && (forall k int :: {s.Attributes[k]} 0 <= k < len(s.Attributes) ==> s.Attributes[k] != nil)
     && (rs.Resource != nil ==> forall k int :: {rs.Resource.Attributes[k]} 0 <= k < len(rs.Resource.Attributes) ==> rs.Resource.Attributes[k] != nil)
  ensures new: r != nil && !existed(r) && live(r)
  ensures self: r.Name == s.Name && r.TraceId == s.TraceId && r.SpanId == s.SpanId && r.StartTimeUnixNano == s.StartTimeUnixNano && r.EndTimeUnixNano == s.EndTimeUnixNano
  ensures alone: r.Parent == nil && len(r.Children) == 0
  ensures svc: rs.Resource != nil ==> forall k int :: {rs.Resource.Attributes[k]} 0 <= k < len(rs.Resource.Attributes) && rs.Resource.Attributes[k].Key == "service.name" && (forall l int :: {rs.Resource.Attributes[l]} 0 <= l < k ==> rs.Resource.Attributes[l].Key != "service.name") ==> r.ServiceName == anyvalue_str(rs.Resource.Attributes[k].Value)
  ensures nosvc: (rs.Resource == nil || (forall k int :: {rs.Resource.Attributes[k]} 0 <= k < len(rs.Resource.Attributes) ==> rs.Resource.Attributes[k].Key != "service.name")) ==> r.ServiceName == ""
  ensures attr: r.SpanAttributes != nil && forall k int :: {s.Attributes[k]} 0 <= k < len(s.Attributes) ==> s.Attributes[k].Key in r.SpanAttributes
  ensures only: forall a string :: {a in r.SpanAttributes} a in r.SpanAttributes ==> r.SpanAttributes[a] != nil && !existed(r.SpanAttributes[a]) && exists k int :: {s.Attributes[k]} 0 <= k < len(s.Attributes) && s.Attributes[k].Key == a && (forall l int :: {s.Attributes[l]} k < l && l < len(s.Attributes) ==> s.Attributes[l].Key != a) && anyOf(r.SpanAttributes[a].Val, s.Attributes[k].Value)
  inv sv(i $i): forall k int :: {rs.Resource.Attributes[k]} 0 <= k < i ==> rs.Resource.Attributes[k].Key != "service.name"
  inv at(i $i, attrs map[string]*omodel.AnyValue): forall k int :: {s.Attributes[k]} 0 <= k < i ==> s.Attributes[k].Key in attrs
  inv on(i $i, attrs map[string]*omodel.AnyValue): forall a string :: {a in attrs} a in attrs ==> attrs[a] != nil && live(attrs[a]) && !existed(attrs[a]) && exists k int :: {s.Attributes[k]} 0 <= k < i && s.Attributes[k].Key == a && (forall l int :: {s.Attributes[l]} k < l && l < i ==> s.Attributes[l].Key != a) && anyOf(attrs[a].Val, s.Attributes[k].Value)

func otel/jaeger.v1Converter.toAnyValueData(c, v) (r)
  prop P12
  main P12
  frame
  ensures outer: anyNil(r, v) && anyStr(r, v) && anyBool(r, v) && anyInt(r, v) && anyDbl(r, v) && anyBytes(r, v) && anyArr(r, v) && anyKv(r, v)
  // every level below, through the contract of the recursive calls
  ensures items: v != nil && tagis(v.Value, "*v1.AnyValue_ArrayValue") ==> forall k int :: {as(v.Value, "*v1.AnyValue_ArrayValue").ArrayValue.Values[k]} 0 <= k < len(as(v.Value, "*v1.AnyValue_ArrayValue").ArrayValue.Values) ==> anyOf(as(r, "*otel/omodel.AnyValueArray").ArrayValues[k], as(v.Value, "*v1.AnyValue_ArrayValue").ArrayValue.Values[k])
  ensures keys: v != nil && tagis(v.Value, "*v1.AnyValue_KvlistValue") ==> forall k int :: {as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[k]} 0 <= k < len(as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values) ==> as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[k].Key in as(r, "*otel/omodel.AnyValueKV").KVValue
  ensures kvals: v != nil && tagis(v.Value, "*v1.AnyValue_KvlistValue") ==> forall a string :: {a in as(r, "*otel/omodel.AnyValueKV").KVValue} a in as(r, "*otel/omodel.AnyValueKV").KVValue ==> exists k int :: {as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[k]} 0 <= k < len(as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values) && as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[k].Key == a && anyOf(as(r, "*otel/omodel.AnyValueKV").KVValue[a], as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[k].Value) && (forall l int :: {as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[l]} k < l && l < len(as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values) ==> as(v.Value, "*v1.AnyValue_KvlistValue").KvlistValue.Values[l].Key != a)
  inv n(i $i, vals []omodel.AnyValueDatum): len(vals) == i
  inv e(i $i, vals []omodel.AnyValueDatum, _s []*v1.AnyValue): forall k int :: {_s[k]} {vals[k]} 0 <= k < i ==> anyOf(vals[k], _s[k])
  inv ub(i $i, _s []*v1.AnyValue): i <= len(_s)
  inv kv(i $i, vals map[string]omodel.AnyValueDatum, _s []*v1.KeyValue): forall a string :: {a in vals} a in vals ==> exists k int :: {_s[k]} 0 <= k < i && _s[k].Key == a && anyOf(vals[a], _s[k].Value) && (forall l int :: {_s[l]} k < l && l < i ==> _s[l].Key != a)
  inv ks(i $i, vals map[string]omodel.AnyValueDatum, _s []*v1.KeyValue): forall k int :: {_s[k]} 0 <= k < i ==> _s[k].Key in vals

func github.com/jaegertracing/jaeger/proto-gen/otel/common/v1.AnyValue.GetValue(m) (r)
  trusted generated getter
  ensures v: r == (m == nil ? nil : m.Value)


// Ordering: every span that was visited is sorted and so are, hereditarily, its children.
ghost sorted [ref]bool
pure memc(s []*omodel.Span, x *omodel.Span) bool
axiom memc_in [memc(]: forall s []*omodel.Span, k int :: {s[k]} 0 <= k < len(s) ==> memc(s, s[k])
axiom memc_ex [memc(]: forall s []*omodel.Span, x *omodel.Span :: {memc(s, x)} memc(s, x) ==> exists k int :: {s[k]} 0 <= k < len(s) && s[k] == x
pure ordered(s *omodel.Span) bool = forall k int, l int :: {s.Children[k], s.Children[l]} 0 <= k && k < l && l < len(s.Children) ==> s.Children[k].StartTimeUnixNano <= s.Children[l].StartTimeUnixNano
// with the unchanged length and "only", distinct children make a permutation
pure distinct(s *omodel.Span) bool = forall k int, l int :: {s.Children[k], s.Children[l]} 0 <= k && k < l && l < len(s.Children) ==> s.Children[k] != s.Children[l]

func otel/omodel.Span.SortChildren(s)
  prop P12
  main P12
  frame
  writes otel.omodel.Span.Children
  modifies sorted
  requires nn: s != nil && live(s) && fam[s] && forall o *omodel.Span, k int :: {o.Children[k]} fam[o] && 0 <= k < len(o.Children) ==> o.Children[k] != nil && fam[o.Children[k]]
  ensures nn using(nn only): forall o *omodel.Span, k int :: {o.Children[k]} fam[o] && 0 <= k < len(o.Children) ==> o.Children[k] != nil && fam[o.Children[k]]
  ensures len using(len l): forall o *omodel.Span :: {o.Children} existed(o) ==> len(o.Children) == old(len(o.Children))
  ensures only using(only): forall o *omodel.Span, x *omodel.Span :: {memc(o.Children, x)} {memc(old(o.Children), x)} existed(o) ==> (memc(o.Children, x) <==> memc(old(o.Children), x))
  ensures dist using(dist): forall o *omodel.Span :: {o.Children} existed(o) && old(distinct(o)) ==> distinct(o)
  set sorted = store(sorted, s, true)
  ensures self: sorted[s]
  ensures mono using(mono): forall o *omodel.Span :: {sorted[o]} old(sorted[o]) ==> sorted[o]
  ensures stable using(stable): forall o *omodel.Span :: {o.Children} existed(o) && old(ordered(o)) ==> ordered(o)
  ensures order using(order self stable): forall o *omodel.Span :: {sorted[o]} existed(o) && sorted[o] && !old(sorted[o]) ==> ordered(o)
  ensures down using(down seen same mono): forall o *omodel.Span, k int :: {sorted[o], o.Children[k]} existed(o) && sorted[o] && !old(sorted[o]) && 0 <= k < len(o.Children) ==> sorted[o.Children[k]]
  inv nn(i $i) using(nn only): forall o *omodel.Span, k int :: {o.Children[k]} fam[o] && 0 <= k < len(o.Children) ==> o.Children[k] != nil && fam[o.Children[k]]
  inv l(i $i) using(l len): forall o *omodel.Span :: {o.Children} existed(o) ==> len(o.Children) == old(len(o.Children))
  inv only(i $i) using(only): forall o *omodel.Span, x *omodel.Span :: {memc(o.Children, x)} {memc(old(o.Children), x)} existed(o) ==> (memc(o.Children, x) <==> memc(old(o.Children), x))
  inv dist(i $i) using(dist): forall o *omodel.Span :: {o.Children} existed(o) && old(distinct(o)) ==> distinct(o)
  inv mono(i $i) using(mono): forall o *omodel.Span :: {sorted[o]} old(sorted[o]) ==> sorted[o]
  inv stable(i $i) using(stable): forall o *omodel.Span :: {o.Children} existed(o) && old(ordered(o)) ==> ordered(o)
  inv self(i $i) using(self stable): ordered(s)
  inv order(i $i) using(order stable): forall o *omodel.Span :: {sorted[o]} existed(o) && sorted[o] && !old(sorted[o]) ==> ordered(o)
  inv down(i $i) using(down mono only): forall o *omodel.Span, k int :: {sorted[o], o.Children[k]} existed(o) && sorted[o] && !old(sorted[o]) && 0 <= k < len(o.Children) ==> sorted[o.Children[k]]
  inv seen(i $i, _s []*omodel.Span) using(seen self mono): forall k int :: {_s[k]} 0 <= k < i ==> sorted[_s[k]]
  inv same(i $i, _s []*omodel.Span) using(same only): forall x *omodel.Span :: {memc(s.Children, x)} {memc(_s, x)} memc(s.Children, x) ==> memc(_s, x)
  inv el(i $i, _s []*omodel.Span): forall j int :: {_s[j]} 0 <= j < len(_s) ==> _s[j] != nil && live(_s[j])
  inv ub(i $i, _s []*omodel.Span): i <= len(_s)

bounded P12 toTraceTrees (linking): generated forests of up to a dozen spans against a reference, TestVerif_P12_forest
