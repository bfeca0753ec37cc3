// props: P16 P18

package dig

import (
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"testing"
	"testing/fstest"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/aws/aws-sdk-go-v2/service/rds"
	rdsTypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
	"github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/injection"
	h "github.com/mrasu/GravityR/zz_verifh"
)

func vDist() {
	injection.ClientDist = fstest.MapFS{
		"client/dist/assets/main.js":  {Data: []byte("1")},
		"client/dist/assets/main.css": {Data: []byte("b{}")},
	}
}

type vAws struct {
	n, fail int
	dbs     []string
	// per request: group, resource, start, end -> data
	reply func(group, res string, start, end time.Time) []piTypes.MetricKeyDataPoints
}

func (v *vAws) step() error {
	k := v.n
	v.n++
	if k == v.fail {
		return fmt.Errorf("boom")
	}
	return nil
}

func (v *vAws) DescribeDBInstances(context.Context, *rds.DescribeDBInstancesInput, ...func(*rds.Options)) (*rds.DescribeDBInstancesOutput, error) {
	if err := v.step(); err != nil {
		return nil, err
	}
	out := &rds.DescribeDBInstancesOutput{}
	for _, d := range v.dbs {
		a, b := d, "res-"+d
		out.DBInstances = append(out.DBInstances, rdsTypes.DBInstance{DBInstanceIdentifier: &a, DbiResourceId: &b})
	}
	return out, nil
}

func (v *vAws) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	if err := v.step(); err != nil {
		return nil, err
	}
	return &pi.GetResourceMetricsOutput{MetricList: v.reply(*in.MetricQueries[0].GroupBy.Group, *in.Identifier, *in.StartTime, *in.EndTime)}, nil
}

func (v *vAws) run(path, start string) error {
	v.n = 0
	return (&piRunner{start: start}).dig(path, aws.NewRdsWithCli(v), aws.NewPerformanceInsightsWithCli(v))
}

type vKey struct {
	group   string
	hour    int64
	db, sql string
}

// The whole week as the report shows it.
func TestVerif_P16_report(t *testing.T) {
	vDist()
	r := h.Rand(162)
	n := h.N(25)
	for c := 0; c < n; c++ {
		zone := h.Pick(r, []*time.Location{time.UTC, time.FixedZone("", 9*3600), time.FixedZone("", 5*3600+1800), time.FixedZone("", -(3*3600 + 1800))})
		start := time.Unix(1659072300+r.Int63n(40000000), 0).In(zone)
		if r.Intn(3) == 0 {
			start = time.Unix(start.Unix()/3600*3600, 0).In(zone)
		}
		sum := map[vKey]float64{}
		max := map[vKey]float64{}
		v := &vAws{fail: -1, dbs: []string{"d1", "d2"}[:1+r.Intn(2)]}
		v.reply = func(group, res string, s, e time.Time) []piTypes.MetricKeyDataPoints {
			var out []piTypes.MetricKeyDataPoints
			sk, ik := "db.sql.statement", "db.sql.tokenized_id"
			if group != "db.sql" {
				sk, ik = "db.sql_tokenized.statement", "db.sql_tokenized.id"
			}
			for k := r.Intn(3); k > 0; k-- {
				m := "db.load.avg"
				sql := fmt.Sprintf("Q%d", r.Intn(3))
				md := piTypes.MetricKeyDataPoints{Key: &piTypes.ResponseResourceMetricKey{Metric: &m, Dimensions: map[string]string{sk: sql, ik: "id" + sql}}}
				for j := r.Intn(4); j > 0; j-- {
					at := s.Add(time.Duration(r.Int63n(int64(e.Sub(s))))).Truncate(time.Second).In(zone)
					if at.Before(s) {
						at = s
					}
					x := float64(1+r.Intn(64)) / 8
					md.DataPoints = append(md.DataPoints, piTypes.DataPoint{Timestamp: &at, Value: &x})
					kk := vKey{group, int64(math.Floor(float64(at.Unix()) / 3600)), res[len("res-"):], sql}
					sum[kk] += x
					max[kk] = math.Max(max[kk], x)
				}
				out = append(out, md)
			}
			return out
		}
		path := filepath.Join(t.TempDir(), "o.html")
		in := fmt.Sprintf("start %s, %d databases", start.Format(time.RFC3339), len(v.dbs))
		h.Guard(t, in, func() {
			if err := v.run(path, start.Format(time.RFC3339)); err != nil {
				h.Fail(t, in, "run failed: %v", err)
			}
			rep, err := h.Report(path)
			if err != nil {
				h.Fail(t, in, "report: %v", err)
			}
			seen := map[vKey]bool{}
			for group, field := range map[string]string{"db.sql": "sqlDbLoads", "db.sql_tokenized": "tokenizedSqlDbLoads"} {
				bs, _ := h.At(rep, "digData", "performanceInsights", field).([]interface{})
				h0 := start.Unix() / 3600
				want := int((start.Unix()+7*24*3600)/3600 - h0 + 1)
				if len(bs) != want {
					h.Fail(t, in, "%d buckets in %s, want %d", len(bs), field, want)
				}
				for i, b := range bs {
					ts, _ := h.At(b, "timestamp").(float64)
					if int64(ts) != (h0+int64(i))*3600000 {
						h.Fail(t, in, "bucket %d of %s has time %v", i, field, ts)
					}
					dl, _ := h.At(b, "databases").([]interface{})
					for _, d := range dl {
						sl, _ := h.At(d, "sqls").([]interface{})
						for _, s := range sl {
							k := vKey{group, h0 + int64(i), fmt.Sprint(h.At(d, "name")), fmt.Sprint(h.At(s, "sql"))}
							if seen[k] {
								h.Fail(t, in, "%v twice", k)
							}
							seen[k] = true
							if h.At(s, "loadSum") != sum[k] || h.At(s, "loadMax") != max[k] || h.At(s, "tokenizedId") != "id"+k.sql {
								h.Fail(t, in, "%v is %s, want sum %v max %v", k, h.J(s), sum[k], max[k])
							}
						}
					}
				}
			}
			for k := range sum {
				if !seen[k] {
					h.Fail(t, in, "measurement %v lost", k)
				}
			}
		})
	}
	h.Stat(t, n, "weeks of generated measurements read back from the report")
}

func TestVerif_P18_runs(t *testing.T) {
	vDist()
	r := h.Rand(182)
	v := &vAws{fail: -1, dbs: []string{"d1", "d2"}}
	v.reply = func(string, string, time.Time, time.Time) []piTypes.MetricKeyDataPoints { return nil }
	dir := t.TempDir()
	start := "2022-07-29T05:25:00Z"
	if err := v.run(filepath.Join(dir, "ok.html"), start); err != nil {
		h.Fail(t, start, "run failed: %v", err)
	}
	total := v.n
	runs := 0
	for k := 0; k < total; k++ {
		v.fail = k
		path := filepath.Join(dir, fmt.Sprintf("o%d.html", k))
		before := ""
		if r.Intn(2) == 0 {
			before = "old"
			_ = os.WriteFile(path, []byte(before), 0o600)
		}
		in := fmt.Sprintf("request %d of %d fails", k, total)
		h.Guard(t, in, func() { h.NoReport(t, in, v.run(path, start), path, before) })
		runs++
	}
	v.fail = -1
	bad := func(what string, f func(path string) error) {
		path := filepath.Join(dir, what+".html")
		h.Guard(t, what, func() { h.NoReport(t, what, f(path), path, "") })
		runs++
	}
	bad("start", func(p string) error { return v.run(p, "yesterday") })
	bad("start2", func(p string) error { return v.run(p, "2022-07-29") })
	bad("assets", func(p string) error { injection.ClientDist = fstest.MapFS{}; defer vDist(); return v.run(p, start) })
	bad("dir", func(string) error { return v.run(filepath.Join(dir, "no", "such.html"), start) })
	h.Stat(t, runs, "runs with one failing request, argument, asset or path")
}
