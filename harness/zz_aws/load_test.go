// props: P16

package zz_aws

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/infra/aws"
	h "github.com/mrasu/GravityR/zz_verifh"
)

var zones = []*time.Location{
	time.UTC, time.UTC,
	time.FixedZone("", 9*3600), time.FixedZone("", -5*3600),
	time.FixedZone("", 5*3600+1800), time.FixedZone("", -(3*3600 + 1800)), time.FixedZone("", 5*3600+45*60),
}

type m struct {
	At      string
	Db, Sql string
	V       float64
}

type key struct {
	hour    int64
	db, sql string
}

type agg struct {
	sum, max float64
	ids      map[string]bool
}

func hourOf(t time.Time) int64 { return int64(math.Floor(float64(t.Unix()) / 3600)) }

// compare checks the buckets against the measurements.
func compare(t *testing.T, in interface{}, start, end time.Time, want map[key]*agg, got []*viewmodel.VmTimeDbLoad) {
	h0 := hourOf(start)
	n := int64(0)
	for hh := h0; !time.Unix(hh*3600, 0).After(end); hh++ {
		n++
	}
	if int64(len(got)) != n {
		h.Fail(t, in, "%d buckets for %d hours", len(got), n)
	}
	seen := map[key]bool{}
	for i, b := range got {
		ts := time.Time(b.Timestamp)
		if !ts.Equal(time.Unix((h0+int64(i))*3600, 0)) {
			h.Fail(t, in, "bucket %d has time %s, want %s", i, ts.UTC(), time.Unix((h0+int64(i))*3600, 0).UTC())
		}
		if b.Databases == nil {
			h.Fail(t, in, "bucket %d has a null list of databases", i)
		}
		dbs := map[string]bool{}
		for _, d := range b.Databases {
			if dbs[d.Name] {
				h.Fail(t, in, "database %q twice in bucket %d", d.Name, i)
			}
			dbs[d.Name] = true
			for _, s := range d.Sqls {
				k := key{h0 + int64(i), d.Name, s.Sql}
				if seen[k] {
					h.Fail(t, in, "%v reported twice", k)
				}
				seen[k] = true
				w := want[k]
				if w == nil {
					h.Fail(t, in, "%v reported without a measurement", k)
				}
				if math.Abs(w.sum-s.LoadSum) > 1e-9*math.Abs(w.sum) || w.max != s.LoadMax {
					h.Fail(t, in, "%v has sum %v max %v, want %v %v", k, s.LoadSum, s.LoadMax, w.sum, w.max)
				}
				if !w.ids[s.TokenizedId] {
					h.Fail(t, in, "%v has id %q", k, s.TokenizedId)
				}
			}
		}
	}
	for k := range want {
		if k.hour >= h0 && k.hour < h0+n && !seen[k] {
			h.Fail(t, in, "measurement %v lost", k)
		}
	}
}

func TestVerif_P16_buckets(t *testing.T) {
	r := h.Rand(16)
	n := h.N(1500)
	for c := 0; c < n; c++ {
		base := time.Unix(1659072300+int64(r.Intn(40000000)), int64(r.Intn(3))*123456789)
		if r.Intn(3) == 0 {
			base = time.Unix(base.Unix()/3600*3600, 0)
		}
		hours := r.Intn(6)
		if r.Intn(20) == 0 {
			hours = 168
		}
		end := base.Add(time.Duration(hours)*time.Hour + time.Duration(r.Intn(3))*20*time.Minute)
		start := base.In(h.Pick(r, zones))
		end = end.In(h.Pick(r, zones))
		var avgs []*aws.PiSQLLoadAvg
		var in []m
		want := map[key]*agg{}
		for a := r.Intn(6); a > 0; a-- {
			av := aws.NewPiSQLLoadAvg(fmt.Sprintf("db%d", r.Intn(3)), h.Pick(r, []string{"", "SELECT 1", "select 1", "SELECT 2"}), fmt.Sprintf("t%d", r.Intn(3)))
			for v := r.Intn(8); v > 0; v-- {
				at := base.Add(time.Duration(r.Int63n(int64(time.Duration(hours+3)*time.Hour))) - time.Hour)
				if r.Intn(3) == 0 {
					at = time.Unix(at.Unix()/3600*3600, 0)
				}
				at = at.In(h.Pick(r, zones))
				x := float64(1+r.Intn(1000)) / 16
				if r.Intn(4) == 0 {
					x = float64(1 + r.Intn(3))
				}
				av.Values = append(av.Values, &aws.PiTimeValue{Time: at, Value: x})
				in = append(in, m{at.Format(time.RFC3339Nano), av.DbName, av.SQL, x})
				k := key{hourOf(at), av.DbName, av.SQL}
				w := want[k]
				if w == nil {
					w = &agg{ids: map[string]bool{}}
					want[k] = w
				}
				w.sum += x
				w.max = math.Max(w.max, x)
				w.ids[av.TokenizedId] = true
			}
			avgs = append(avgs, av)
		}
		input := map[string]interface{}{"start": start.Format(time.RFC3339Nano), "end": end.Format(time.RFC3339Nano), "measurements": in}
		h.Guard(t, input, func() {
			compare(t, input, start, end, want, aws.ConvertPiSQLLoadAvgsToVms(start, end, avgs))
		})
	}
	h.Stat(t, n, "random periods, zones and measurements, against a direct aggregation")
}

type fakePI struct {
	in  []*pi.GetResourceMetricsInput
	out *pi.GetResourceMetricsOutput
	err error
}

func (f *fakePI) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	f.in = append(f.in, in)
	return f.out, f.err
}

func metrics(r *rand.Rand, group string) ([]piTypes.MetricKeyDataPoints, []*aws.PiSQLLoadAvg) {
	sqlKey, idKey := "db.sql.statement", "db.sql.tokenized_id"
	if group == "db.sql_tokenized" {
		sqlKey, idKey = "db.sql_tokenized.statement", "db.sql_tokenized.id"
	}
	var list []piTypes.MetricKeyDataPoints
	var want []*aws.PiSQLLoadAvg
	for i := r.Intn(5); i > 0; i-- {
		k := &piTypes.ResponseResourceMetricKey{}
		name := h.Pick(r, []string{"db.load.avg", "db.load.avg", "db.load.avg", "os.cpu"})
		if r.Intn(8) > 0 {
			k.Metric = &name
		}
		if r.Intn(6) > 0 {
			k.Dimensions = map[string]string{"db.sql.statement": "a" + fmt.Sprint(i), "db.sql.tokenized_id": "b" + fmt.Sprint(i),
				"db.sql_tokenized.statement": "c" + fmt.Sprint(i), "db.sql_tokenized.id": "d" + fmt.Sprint(i)}
		}
		av := &aws.PiSQLLoadAvg{DbName: "inst", SQL: k.Dimensions[sqlKey], TokenizedId: k.Dimensions[idKey]}
		var dps []piTypes.DataPoint
		for j := r.Intn(5); j > 0; j-- {
			at := time.Unix(r.Int63n(2000000000), 0)
			v := float64(r.Intn(4)) / 2
			dp := piTypes.DataPoint{}
			if r.Intn(6) > 0 {
				dp.Timestamp = &at
			}
			if r.Intn(6) > 0 {
				dp.Value = &v
			}
			dps = append(dps, dp)
			if dp.Timestamp != nil && dp.Value != nil && v != 0 {
				av.Values = append(av.Values, &aws.PiTimeValue{Time: at, Value: v})
			}
		}
		list = append(list, piTypes.MetricKeyDataPoints{Key: k, DataPoints: dps})
		if k.Metric != nil && name == "db.load.avg" && k.Dimensions != nil {
			want = append(want, av)
		}
	}
	return list, want
}

func TestVerif_P16_extract(t *testing.T) {
	r := h.Rand(161)
	n := h.N(400)
	for c := 0; c < n; c++ {
		group := h.Pick(r, []string{"db.sql", "db.sql_tokenized"})
		list, want := metrics(r, group)
		f := &fakePI{out: &pi.GetResourceMetricsOutput{MetricList: list}}
		cli := aws.NewPerformanceInsightsWithCli(f)
		start := time.Unix(r.Int63n(2000000000), 0).In(h.Pick(r, zones))
		db := &aws.RdsDB{InstanceIdentifier: "inst", DbiResourceId: "res"}
		h.Guard(t, list, func() {
			get := cli.GetHalfDaySqlMetrics
			if group != "db.sql" {
				get = cli.GetHalfDayTokenizedSqlMetrics
			}
			got, err := get(db, start)
			if err != nil {
				h.Fail(t, list, "error %v", err)
			}
			if h.J(got) != h.J(want) {
				h.Fail(t, list, "extracted %s, want %s", h.J(got), h.J(want))
			}
			if len(f.in) != 1 {
				h.Fail(t, list, "%d requests", len(f.in))
			}
			q := f.in[0]
			if q.Identifier == nil || *q.Identifier != "res" || !q.StartTime.Equal(start) || !q.EndTime.Equal(start.Add(12*time.Hour)) ||
				len(q.MetricQueries) != 1 || *q.MetricQueries[0].Metric != "db.load.avg" || *q.MetricQueries[0].GroupBy.Group != group || db.DbiResourceId != "res" {
				h.Fail(t, h.J(q), "wrong request for group %s from %s", group, start)
			}
		})
		f.err = fmt.Errorf("boom")
		if r.Intn(2) == 0 {
			f.out = nil
		}
		for _, get := range []func(*aws.RdsDB, time.Time) ([]*aws.PiSQLLoadAvg, error){cli.GetHalfDaySqlMetrics, cli.GetHalfDayTokenizedSqlMetrics} {
			h.Guard(t, "failing request", func() {
				if got, err := get(db, start); err == nil || got != nil {
					h.Fail(t, "failing request", "gave %s, %v", h.J(got), err)
				}
			})
		}
	}
	h.Stat(t, n, "metric lists with missing keys, values and timestamps")
}
