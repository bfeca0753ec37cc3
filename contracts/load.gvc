// Load report: hourly buckets of Performance Insights measurements.
pure hourOf(n mint) mint = n - n % 3600000000000
pure isLoad(m types.MetricKeyDataPoints) bool = m.Key.Metric != nil && deref(m.Key.Metric) == "db.load.avg" && m.Key.Dimensions != nil
pure isPoint(d types.DataPoint) bool = d.Timestamp != nil && d.Value != nil && deref(d.Value) != flt(0, 1)
pure dim(d map[string]string, k string) string = k in d ? d[k] : ""

func lib.NormalizeTimeByHour(t) (r)
  prop P16
  main P16
  ensures hour: time_utc(t) ==> time_utc(r) && tns(r) == hourOf(tns(t))

func infra/aws.PerformanceInsights.convertResourceMetricsToAvgs(pi, db, output, sqlKey, tokenizedIdKey) (res)
  prop P16
  main P16
  requires nn: db != nil && output != nil && forall k int :: {output.MetricList[k]} 0 <= k < len(output.MetricList) ==> output.MetricList[k].Key != nil
  rec an(m int) int = m <= 0 ? 0 : an(m - 1) + (isLoad(output.MetricList[m - 1]) ? 1 : 0)
  rec vn(d []types.DataPoint, j int) int = j <= 0 ? 0 : vn(d, j - 1) + (isPoint(d[j - 1]) ? 1 : 0)
  ensures count: len(res) == an(len(output.MetricList))
  ensures head: forall m int :: {output.MetricList[m]} 0 <= m < len(output.MetricList) && isLoad(output.MetricList[m]) ==> res[an(m)] != nil && res[an(m)].DbName == db.InstanceIdentifier && res[an(m)].SQL == dim(output.MetricList[m].Key.Dimensions, sqlKey) && res[an(m)].TokenizedId == dim(output.MetricList[m].Key.Dimensions, tokenizedIdKey)
  ensures size: forall m int :: {output.MetricList[m]} 0 <= m < len(output.MetricList) && isLoad(output.MetricList[m]) ==> len(res[an(m)].Values) == vn(output.MetricList[m].DataPoints, len(output.MetricList[m].DataPoints))
  ensures vals: forall m int, j int :: {output.MetricList[m].DataPoints[j]} 0 <= m < len(output.MetricList) && isLoad(output.MetricList[m]) && 0 <= j < len(output.MetricList[m].DataPoints) && isPoint(output.MetricList[m].DataPoints[j])
     ==> res[an(m)].Values[vn(output.MetricList[m].DataPoints, j)] != nil && res[an(m)].Values[vn(output.MetricList[m].DataPoints, j)].Value == deref(output.MetricList[m].DataPoints[j].Value) && res[an(m)].Values[vn(output.MetricList[m].DataPoints, j)].Time == deref(output.MetricList[m].DataPoints[j].Timestamp)

  inv n(i $i, res []*infra/aws.PiSQLLoadAvg): len(res) == an(i)
  inv lv(res []*infra/aws.PiSQLLoadAvg): forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && live(res[k])
  inv am(i $i, res []*infra/aws.PiSQLLoadAvg): forall m int :: {an(m)} 0 <= m < i ==> 0 <= an(m) && an(m) + (isLoad(output.MetricList[m]) ? 1 : 0) <= len(res)
  inv h(i $i, res []*infra/aws.PiSQLLoadAvg): forall m int :: {output.MetricList[m]} 0 <= m < i && isLoad(output.MetricList[m]) ==> res[an(m)].DbName == db.InstanceIdentifier && res[an(m)].SQL == dim(output.MetricList[m].Key.Dimensions, sqlKey) && res[an(m)].TokenizedId == dim(output.MetricList[m].Key.Dimensions, tokenizedIdKey)
  inv z(i $i, res []*infra/aws.PiSQLLoadAvg): forall m int :: {output.MetricList[m]} 0 <= m < i && isLoad(output.MetricList[m]) ==> len(res[an(m)].Values) == vn(output.MetricList[m].DataPoints, len(output.MetricList[m].DataPoints))
  inv v(i $i, res []*infra/aws.PiSQLLoadAvg): forall m int, j int :: {output.MetricList[m].DataPoints[j]} 0 <= m < i && isLoad(output.MetricList[m]) && 0 <= j < len(output.MetricList[m].DataPoints) && isPoint(output.MetricList[m].DataPoints[j])
     ==> res[an(m)].Values[vn(output.MetricList[m].DataPoints, j)] != nil && res[an(m)].Values[vn(output.MetricList[m].DataPoints, j)].Value == deref(output.MetricList[m].DataPoints[j].Value) && res[an(m)].Values[vn(output.MetricList[m].DataPoints, j)].Time == deref(output.MetricList[m].DataPoints[j].Timestamp)
  // inner loop over the points of one metric
  inv il(i $i, sla *infra/aws.PiSQLLoadAvg, _d []types.DataPoint): len(sla.Values) == vn(_d, i)
  inv im(i $i, sla *infra/aws.PiSQLLoadAvg, _d []types.DataPoint): forall j int :: {vn(_d, j)} 0 <= j < i ==> 0 <= vn(_d, j) && vn(_d, j) + (isPoint(_d[j]) ? 1 : 0) <= len(sla.Values)
  inv iv(i $i, sla *infra/aws.PiSQLLoadAvg, _d []types.DataPoint): forall j int :: {_d[j]} 0 <= j < i && isPoint(_d[j]) ==> sla.Values[vn(_d, j)] != nil && live(sla.Values[vn(_d, j)]) && sla.Values[vn(_d, j)].Value == deref(_d[j].Value) && sla.Values[vn(_d, j)].Time == deref(_d[j].Timestamp)
  inv io(res []*infra/aws.PiSQLLoadAvg, sla *infra/aws.PiSQLLoadAvg): res[len(res) - 1] == sla && forall k int :: {res[k]} 0 <= k < len(res) - 1 ==> res[k] != sla && res[k].Values == entry(res[k].Values)
  inv ub(i $i, _d []types.DataPoint): i <= len(_d)

func infra/aws.ConvertPiSQLLoadAvgsToVms(start, end, avgs) (res)
  prop P16
  main P16
  requires nn: forall i int :: {avgs[i]} 0 <= i < len(avgs) ==> avgs[i] != nil && existed(avgs[i]) && forall j int :: {avgs[i].Values[j]} 0 <= j < len(avgs[i].Values) ==> avgs[i].Values[j] != nil && existed(avgs[i].Values[j])
  // the buckets
  ensures none: len(res) == 0 <==> hourOf(tns(start)) > tns(end)
  ensures hours: forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && tns(res[k].Timestamp) == hourOf(tns(start)) + k * 3600000000000
  ensures last: len(res) > 0 ==> hourOf(tns(start)) + (len(res) - 1) * 3600000000000 <= tns(end) && tns(end) < hourOf(tns(start)) + len(res) * 3600000000000
  // what measurements 0..i-1 and the first j of i say about query q of database d in hour h
  rec hr(i int, j int) mint = hourOf(tns(avgs[i].Values[j].Time))
  rec seen(i int, j int, h mint, d string, q string) bool = j <= 0 ? (i <= 0 ? false : seen(i - 1, len(avgs[i - 1].Values), h, d, q)) : seen(i, j - 1, h, d, q) || (hourOf(tns(avgs[i].Values[j - 1].Time)) == h && avgs[i].DbName == d && avgs[i].SQL == q)
  rec fsum(i int, j int, h mint, d string, q string) float64 = j <= 0 ? (i <= 0 ? flt(0, 1) : fsum(i - 1, len(avgs[i - 1].Values), h, d, q)) : (hourOf(tns(avgs[i].Values[j - 1].Time)) == h && avgs[i].DbName == d && avgs[i].SQL == q ? (seen(i, j - 1, h, d, q) ? fsum(i, j - 1, h, d, q) + avgs[i].Values[j - 1].Value : avgs[i].Values[j - 1].Value) : fsum(i, j - 1, h, d, q))
  rec fmax(i int, j int, h mint, d string, q string) float64 = j <= 0 ? (i <= 0 ? flt(0, 1) : fmax(i - 1, len(avgs[i - 1].Values), h, d, q)) : (hourOf(tns(avgs[i].Values[j - 1].Time)) == h && avgs[i].DbName == d && avgs[i].SQL == q ? (seen(i, j - 1, h, d, q) && !(fmax(i, j - 1, h, d, q) < avgs[i].Values[j - 1].Value) ? fmax(i, j - 1, h, d, q) : avgs[i].Values[j - 1].Value) : fmax(i, j - 1, h, d, q))
  inv keys(S map[time.Time]*viewmodel.VmTimeDbLoad, D map[time.Time]map[string]*viewmodel.VmDbLoad): forall t time.Time :: {t in S} {t in D} {S[t]} {D[t]} (t in S <==> t in D) && (t in S ==> time_utc(t) && S[t] != nil && S[t].Timestamp == t && live(S[t]) && !existed(S[t]))
  inv tg(target time.Time): time_utc(target)
  inv tl(target time.Time, res []*viewmodel.VmTimeDbLoad): tns(target) == hourOf(tns(start)) + len(res) * 3600000000000
  inv te(res []*viewmodel.VmTimeDbLoad): len(res) > 0 ==> hourOf(tns(start)) + (len(res) - 1) * 3600000000000 <= tns(end)
  inv tr(res []*viewmodel.VmTimeDbLoad): forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && live(res[k]) && tns(res[k].Timestamp) == hourOf(tns(start)) + k * 3600000000000

bounded P16 sums and maxima inside a bucket of ConvertPiSQLLoadAvgsToVms: generated measurements against a reference, TestVerif_P16_buckets and TestVerif_P16_report
