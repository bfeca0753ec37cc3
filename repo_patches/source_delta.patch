From 87dca1e788c1d3277972f70a51d8879851084134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:33 +0000
Subject: [PATCH 1/8] fix: match the whole index argument, not a part of it

---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..328ccc4 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -15,7 +15,7 @@ type IndexTarget struct {
 	Columns   []*IndexColumn
 }
 
-var indexTargetReg = regexp.MustCompile(`(.+?):((.+?(\+)?)+)`)
+var indexTargetReg = regexp.MustCompile(`\A(.+?):((.+?(\+)?)+)\z`)
 var wordOnlyReg = regexp.MustCompile(`\A\w+\z`)
 
 const indexTargetColumnSeparator = "+"
-- 
2.43.0


From 5d824887fb84c9a3b71565b752634eeb21ac9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:25 +0000
Subject: [PATCH 2/8] fix: keep the last plan node and a leading summary of a
 PostgreSQL plan

---
 .../pservice/explain_analyze_tree_builder.go         | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..2fb97a5 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -72,12 +72,9 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	var lineNodes [][]string
 	var nodeLines []string
 	prevLineType := analyzeLinePlanName
-	summaryStartLine := 0
+	summaryStartLine := len(explainLines)
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -119,10 +116,9 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		}
 	}
 
-	sLine := ""
-	if summaryStartLine > 0 {
-		sLine = strings.Join(explainLines[summaryStartLine:], "\n")
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
 	}
 
-	return lineNodes, sLine
+	return lineNodes, strings.Join(explainLines[summaryStartLine:], "\n")
 }
-- 
2.43.0


From 8b5b58707cfcf454ed6b4ae68a03fa9da1e61da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:25 +0000
Subject: [PATCH 3/8] fix: count only the time inside the span as covered by
 its children

---
 otel/omodel/span.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..c85d6ab 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -70,7 +70,15 @@ func (s *Span) IsSame(other *Span) bool {
 func (s *Span) CalcConsumedTime() uint64 {
 	var childTimes [][]uint64
 	for _, c := range s.Children {
-		childTimes = append(childTimes, []uint64{c.StartTimeUnixNano, c.EndTimeUnixNano})
+		start, end := c.StartTimeUnixNano, c.EndTimeUnixNano
+		// Children can outlive the span, only the time inside the span matters
+		if start > s.EndTimeUnixNano {
+			start = s.EndTimeUnixNano
+		}
+		if end > s.EndTimeUnixNano {
+			end = s.EndTimeUnixNano
+		}
+		childTimes = append(childTimes, []uint64{start, end})
 	}
 	lib.Sort(childTimes, func(t []uint64) uint64 { return t[0] })
 
-- 
2.43.0


From c36ef2f96668f0667b4fb2b8e4140cd04ef637f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:29 +0000
Subject: [PATCH 4/8] fix: bucket loads by UTC hour whatever the time zone of
 the times

---
 infra/aws/pi_sql_load_avg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..34eb8a4 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -26,7 +26,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 	dbLoadMap := map[time.Time]map[string]*viewmodel.VmDbLoad{}
 	for _, avg := range avgs {
 		for _, v := range avg.Values {
-			baseTime := lib.NormalizeTimeByHour(v.Time)
+			baseTime := lib.NormalizeTimeByHour(v.Time.UTC())
 			if _, ok := sqlLoadMap[baseTime]; !ok {
 				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
 			}
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From 3a9d62fcf6d8a24c26eb0e333be5d4d13ada4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:32 +0000
Subject: [PATCH 5/8] fix: keep the sub-second part of the trace search windows

---
 otel/jaeger/trace_fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/otel/jaeger/trace_fetcher.go b/otel/jaeger/trace_fetcher.go
index aa1428f..ec4a94f 100644
--- a/otel/jaeger/trace_fetcher.go
+++ b/otel/jaeger/trace_fetcher.go
@@ -24,10 +24,11 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 	var res []*omodel.TraceTree
 	times := lib.GenerateTimeRanges(start, end, interval)
 	for _, start := range times {
+		windowEnd := start.Add(interval)
 		param := &api_v3.TraceQueryParameters{
 			ServiceName:  serviceName,
-			StartTimeMin: &types.Timestamp{Seconds: start.Unix()},
-			StartTimeMax: &types.Timestamp{Seconds: start.Add(interval).Unix()},
+			StartTimeMin: &types.Timestamp{Seconds: start.Unix(), Nanos: int32(start.Nanosecond())},
+			StartTimeMax: &types.Timestamp{Seconds: windowEnd.Unix(), Nanos: int32(windowEnd.Nanosecond())},
 			NumTraces:    size,
 			DurationMin:  tf.toProtoDuration(durationMin),
 		}
-- 
2.43.0


From e64a0e2cce60af8b20c82eea1b63b81925d7bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:37 +0000
Subject: [PATCH 6/8] fix: accept span attributes without a value

---
 otel/jaeger/v1_converter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..1ae22be 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -85,7 +85,10 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
-	switch vv := v.Value.(type) {
+	switch vv := v.GetValue().(type) {
+	case nil:
+		// An attribute is allowed to have no value
+		return nil
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From 07cbf37356a64758395e727f991e139aafad8907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:20 +0000
Subject: [PATCH 7/8] fix: report GraphQL queries that fail with status 200

---
 infra/hasura/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..c190c3d 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,22 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// GraphQL responds with status 200 even when the query fails
+	var gres struct {
+		Errors []json.RawMessage `json:"errors"`
+	}
+	err = json.Unmarshal(res, &gres)
+	if err != nil {
+		return errors.Wrap(err, "failed to decode response from Hasura")
+	}
+	if len(gres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", string(gres.Errors[0]))
+	}
 	return nil
 }
 
-- 
2.43.0


From b858c11929f5db172f98a9ce8c8dfbdb5fdb3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 8/8] fix: suggest nothing instead of failing when no index is
 possible

---
 database/dservice/existing_index_remover.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..89f706d 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -24,6 +24,11 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 }
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
+	if len(r.idxTargets) == 0 {
+		// Without targets there is no table to ask for
+		return nil, nil
+	}
+
 	idxTargets := lo.Uniq(r.idxTargets)
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
-- 
2.43.0

