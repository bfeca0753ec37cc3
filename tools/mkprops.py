#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
p("P01","Examination never leaves a temporary index behind",
"While indexes are being examined, every index creation that succeeded is followed by exactly one drop of the same index (same name, same table) before another index is created and before the examination ends, whatever step fails; an index whose creation failed is never dropped. If creating, executing or dropping fails, the examination reports an error.",
["fault_sequences","inputs","histories"],"every list of index targets and every pattern of success/failure of the create, execute and drop steps",
"the examiner has no unit test of its own; the command tests sample one all-success run",
["database/dservice/examiner.go"],[("examination loop","database/dservice/examiner.go:Run"),("create / measure / deferred drop","database/dservice/examiner.go:examine")],["sequence of calls received by the database side of the examination"])
p("P02","Index DDL is one statement naming exactly the given table, index and columns",
"For MySQL, PostgreSQL and Hasura, the text sent to create an index is exactly one statement creating one index with the given name on the given table over the given columns in order, and the drop text removes exactly that index; every identifier is quoted and column identifiers are reduced to word characters, so no column name can end the quoting. A target is judged safe to examine only if its table and all its columns consist of word characters, and index names generated for examination consist of word characters and stay within 63 characters.",
["inputs"],"every table name, index name and column list, including names containing quotes, backticks, spaces and non-ASCII letters",
"tests sample a couple of plain ASCII names; injection needs hostile names",
["database/mysql/mservice/index_examiner.go","database/postgres/pservice/index_examiner.go","database/hasura/hservice/index_examiner.go","database/dmodel/index_target.go","database/dmodel/index_column.go","database/dservice/examiner.go"],
[("DDL rendering","database/*/ *service/index_examiner.go:CreateIndex,DropIndex"),("safe name","database/dmodel/index_column.go:SafeName"),("safety filter","database/dmodel/index_target.go:IsSafe"),("index naming","database/dservice/examiner.go:examine")],["SQL text reaching the driver / HTTP body"])
p("P03","Index arguments are accepted exactly when well-formed, and read exactly",
"An index argument is accepted if and only if the whole text is a word, a colon, and one or more words separated by plus signs; the resulting target has exactly that table and exactly those columns in order. One malformed argument rejects the whole list, and a list is otherwise translated one to one in order.",
["inputs"],"every argument text (including newlines, unicode, empty pieces, extra separators) and every list of them",
"tests cover about a dozen texts; the acceptance condition quantifies over all strings",
["database/dmodel/index_target.go","database/dmodel/index_column.go"],
[("text parser","database/dmodel/index_target.go:NewIndexTargetFromText"),("list parser","database/dmodel/index_target.go:NewIndexTargetsFromTexts"),("column check","database/dmodel/index_column.go:NewIndexColumn")],["returned targets / error"])
p("P04","Each examination time is measured with exactly its own index in place",
"A successful examination executes the query first with no temporary index, then once per target in the given order with exactly that target's index in place; the reported original time is the first measurement and result k pairs target k with the measurement taken under its index. Nothing is added, dropped, reordered or measured under another index.",
["inputs","histories"],"every list of targets (including empty, repeated, several per table) and all measured times",
"only end-to-end command tests exist and they do not relate measured times to the indexes in place",
["database/dservice/examiner.go","database/dmodel/examination_result.go","database/dmodel/examination_index_result.go"],
[("examination loop","database/dservice/examiner.go:Run,examine,execute"),("result constructors","database/dmodel/examination_result.go")],["returned examination result against the call log"])
p("P05","Suggestions drop exactly the indexes that already exist",
"A candidate index is removed from the suggestions if and only if some existing index on the same table has the same column list, compared case-insensitively, position by position and with equal length; all other candidates are kept in order, once each. The existing indexes consulted are those of the given database and of every table with a candidate, each read as its own table with its own ordered columns.",
["inputs"],"every candidate list and every set of existing indexes (prefixes, permutations, other tables, case differences, several indexes per table)",
"no unit test of the remover; command tests sample at most one existing index",
["database/dservice/existing_index_remover.go","database/dmodel/index_target.go","infra/mysql/index_info.go","infra/postgres/index_info.go","infra/hasura/index_info.go","database/mysql/mservice/index_getter.go","database/postgres/pservice/index_getter.go","database/hasura/hservice/index_getter.go"],
[("filter","database/dservice/existing_index_remover.go:Remove"),("column comparison","database/dmodel/index_target.go:HasSameIdxColumns"),("row grouping","infra/mysql/index_info.go:toIndexInfo")],["returned suggestions; lookup arguments"])
p("P06","Index candidates are exactly the useful column orders of the query",
"For each table, the candidate indexes are exactly the ordered selections of distinct columns the query uses, except that columns that are only read may appear only at the end, in ascending order and only when the index covers every column used, and indexes consisting of primary-key columns alone are left out. No candidate repeats a column or names a column the query does not use.",
["inputs"],"every set of used columns with every mix of filtering and read-only use and every primary key",
"tests enumerate about ten hand-written queries with at most three columns",
["database/dservice/dparser/index_target_builder.go","lib/set.go"],
[("permutation enumeration","index_target_builder.go:compositeFieldColumns"),("covering filter","index_target_builder.go:extractEfficientIndexes"),("primary-key filter","index_target_builder.go:removePkOnlyFields")],["returned index targets"])
p("P07","Table schemas mirror the catalog rows",
"The schema list has one entry per requested table in request order, empty exactly when the catalog has no row for that table; otherwise its columns are that table's catalog columns in catalog order and its primary keys are exactly its columns flagged as primary key, in order. Rows of one table never leak into another.",
["inputs"],"every request list and every interleaving of catalog rows",
"tests use rows grouped by table and at most two tables",
["database/dservice/dparser/table_schema.go"],[("row grouping","database/dservice/dparser/table_schema.go:CreateTableSchemas")],["returned schemas"])
p("P08","Every suggested column exists and carries its strongest use",
"Resolving a query's columns yields only columns that exist in the schema of the table they are attributed to, each at most once per table, and a column used for filtering anywhere is recorded as filtering even if it is read elsewhere, in whatever order the uses occur. A column that cannot be resolved is reported as an error rather than guessed.",
["inputs","programs"],"every nesting of subqueries, aliases and lateral tables and every order of column uses",
"tests sample a few dozen queries; the quantifier is over all scope trees",
["database/dservice/dparser/build_table_fields.go","database/dservice/dparser/index_target_builder.go"],
[("scope resolution","build_table_fields.go:calculateReferences"),("merge","build_table_fields.go:addReferencingField"),("lookup","build_table_fields.go:getColumnInfos,getReferencingColumnInfos")],["resolved table/column sets; suggested index columns"])
p("P09","MySQL plan tree keeps every line under its indentation parent",
"The MySQL plan tree contains exactly one node per non-empty line of the plan text, each placed, in line order, below the nearest preceding line with indentation one level smaller (top-level lines below the root). A line indented more than one level deeper than its predecessor is rejected with an error; no line is lost or moved.",
["inputs"],"every plan text: any number of lines and any sequence of nesting depths",
"tests sample a handful of plans of depth at most five",
["database/mysql/mservice/explainer.go","lib/stack.go"],[("tree building with a node stack","database/mysql/mservice/explainer.go:buildExplainNode"),("stack","lib/stack.go")],["returned plan tree"])
p("P10","PostgreSQL plan keeps every line, in order, in one node or the summary",
"Every line of a PostgreSQL plan before the first summary line belongs to exactly one plan node, contiguous and in order, and the summary text is exactly the lines from the first summary line on. A node starts at the first line and at every later line that is not a detail line (\"Key: value\"), except that an arrow line directly after a plan-name line (such as \"CTE x\") continues that node. Each node is placed, in order, below the nearest preceding node with strictly smaller indentation.",
["inputs"],"every list of plan lines with any mix of line kinds and indentation, with or without a summary",
"tests sample about ten captured plans",
["database/postgres/pservice/explain_analyze_tree_builder.go","lib/stack.go"],[("line grouping","explain_analyze_tree_builder.go:groupToPlanLineNodes"),("tree building","explain_analyze_tree_builder.go:collect")],["returned plan tree and summary"])
p("P11","Plan metrics are the numbers printed in the plan",
"For MySQL and PostgreSQL plan nodes, each reported metric (initial cost, cost, estimated rows, width, first-row time, average time, actual rows, loops) equals the number printed at its place in the node's text and is absent exactly when the text does not print it; a number that cannot be represented is an error. The estimated total time is derived only from the node's own average time and loop count.",
["inputs"],"every node text, with any subset of metrics present and any digits",
"tests sample about fifteen captured lines",
["database/mysql/mmodel/explain_analyze_result_line.go","database/postgres/pmodel/explain_analyze_result_node.go"],[("MySQL line parser","explain_analyze_result_line.go:ParseExplainAnalyzeResultLine"),("PostgreSQL node parser","explain_analyze_result_node.go:ParseExplainAnalyzeResultLineNode")],["parsed metrics"])
p("P12","Every received span lands exactly once in the trace forest",
"Converting received spans (with distinct span ids and acyclic parent links) yields a forest in which every span occurs exactly once with its name, ids, times, attributes and service preserved: spans without a parent, or whose parent was not received, are roots, and every other span is a child of exactly its parent. Children of every node are ordered by start time.",
["inputs"],"every grouping and arrival order of spans, with missing parents, several roots and deep nesting",
"tests sample traces of up to six spans",
["otel/jaeger/v1_converter.go","otel/omodel/span.go"],[("linking","otel/jaeger/v1_converter.go:toTraceTrees"),("ordering","otel/omodel/span.go:SortChildren")],["returned trace trees"])
p("P13","Compaction keeps exactly entry and database spans, in place",
"Compacting a trace keeps the root, every span whose service differs from its parent's and every leaf database span, and nothing else; each kept span appears once, in the original order, under its nearest kept ancestor. Kept spans retain their ids, times and attributes, database leaves are labelled with the database and the service, and the original trace is not modified.",
["inputs"],"every trace tree: any shape, any assignment of services and database attributes",
"tests sample five small trees",
["otel/omodel/trace_compacter.go","otel/omodel/trace_tree.go","otel/omodel/span.go"],[("visitor","otel/omodel/trace_compacter.go:Enter,Leave,remains"),("traversal","otel/omodel/trace_tree.go:visitRecursive,Compact")],["compacted tree against the original"])
p("P14","Reported slow and fan-out traces are the right ones",
"For traces whose root ends no earlier than it starts, the slow traces reported are the requested number of longest traces (all of them when there are fewer), from longest to shortest, each a distinct input trace. The same-service traces reported are exactly the input traces, in order, in which some service occurs more often than the threshold.",
["inputs"],"every list of traces with any durations (ties included), every limit and threshold",
"tests use nine fixed durations and two limits",
["otel/jaeger/trace_picker.go","lib/heap.go","otel/omodel/trace_tree.go","otel/omodel/same_resource_count_visitor.go"],[("bounded heap","lib/heap.go:LimitedHeap"),("pickers","otel/jaeger/trace_picker.go"),("service counts","otel/omodel/same_resource_count_visitor.go")],["returned lists"])
p("P15","Consumed time is the span's time not covered by its children",
"For spans ending no earlier than they start, the time attributed to a span is the length of its own interval not covered by any direct child, however children overlap, nest, or extend beyond the span; it never exceeds the span's duration. Per service these times add up over all spans of the trace, and the service named as most time-consuming is one with the largest sum (none is named when every sum is zero).",
["inputs"],"every span interval and every list of child intervals, including children outside the span",
"tests use at most two children inside the parent",
["otel/omodel/span.go","otel/omodel/compact_info_collect_visitor.go"],[("interval sweep","otel/omodel/span.go:CalcConsumedTime"),("aggregation","otel/omodel/compact_info_collect_visitor.go")],["consumed time, reported service"])
p("P16","Load report has one bucket per hour and loses no measurement",
"The load report has exactly one bucket per clock hour from the hour of the start to the end, in order; within a bucket each database appears once and each of its queries once, with the sum and maximum of exactly the measurements of that hour, database and query. Every non-zero measurement received whose hour lies in the range is counted once, whatever the time zone it is expressed in.",
["inputs"],"every set of measurements, range and time zone",
"tests use UTC times and one database",
["infra/aws/pi_sql_load_avg.go","lib/time.go","infra/aws/performance_insights.go"],[("aggregation","infra/aws/pi_sql_load_avg.go:ConvertPiSQLLoadAvgsToVms"),("extraction","infra/aws/performance_insights.go:convertResourceMetricsToAvgs")],["returned buckets"])
p("P17","Trace search windows tile the requested period",
"Searching traces over a period issues consecutive windows that start at the period's start, each beginning where the previous one ends, cover the period completely and never start at or after its end; the requested service, count and exact minimum duration are passed to every window. Traces returned for all windows are all reported, in order.",
["inputs","histories"],"every period, interval and minimum duration",
"tests use a single window",
["lib/time.go","otel/jaeger/trace_fetcher.go"],[("window generation","lib/time.go:GenerateTimeRanges"),("fetch loop and duration conversion","otel/jaeger/trace_fetcher.go")],["query parameters sent, traces returned"])
p("P18","Failures always surface and never yield a report",
"If any step of a suggest or dig run fails (connecting lookups, plan retrieval, parsing, schema or index lookup, examination, HTTP, metric or trace retrieval), the run returns an error and writes no report; a report is written only after every step succeeded. Lookup layers never turn a failed request, a non-success HTTP status or a GraphQL error reply into an empty or partial result.",
["fault_sequences","inputs"],"every position and combination of failing steps",
"tests run only all-success scenarios",
["cmd/db/suggest/mysql.go","cmd/db/suggest/postgres.go","cmd/db/suggest/hasura/postgres.go","cmd/db/dig/performance_insights.go","cmd/app/dig/jaeger.go","infra/mysql/db.go","infra/postgres/db.go","infra/hasura/client.go","infra/jaeger/client.go","infra/aws/rds.go","infra/aws/performance_insights.go"],[("command pipelines","cmd/**"),("lookup layers","infra/**")],["returned error, created files"])
p("P19","The report shows exactly what was computed",
"The report data contains the plan tree node for node with the same texts, metrics and child order, the suggested indexes with the same tables and columns in order, and the examination results with the same targets and times. User-given index targets are examined when present, otherwise exactly the suggestions judged safe, and nothing is examined unless examination was requested.",
["inputs"],"every plan tree, suggestion list and examination outcome",
"tests compare a few fixed reports",
["database/mysql/mmodel/explain_analyze_tree_node.go","database/postgres/pmodel/explain_analyze_tree_node.go","database/dmodel/index_target.go","database/dmodel/examination_result.go","html/build_option.go","cmd/db/suggest/mysql.go","cmd/db/suggest/postgres.go","cmd/db/suggest/hasura/postgres.go"],[("view-model conversion","*/ToViewModel"),("target selection","cmd/db/suggest/*.go:examine")],["view models; calls received by the examination side"])
p("P20","Hasura catalog lookups cannot be subverted by names",
"Catalog queries sent through Hasura contain the schema and table names only as quoted word-only literals and are marked read-only; a schema or table name with any other character is rejected with an error before anything is sent. Each catalog row after the header becomes exactly one result entry with its own values.",
["inputs"],"every schema and table name and every catalog response",
"tests use one schema and plain names",
["infra/hasura/client.go","infra/hasura/column_info.go","infra/hasura/index_info.go"],[("query building","infra/hasura/column_info.go:buildColumnFetchQuery; index_info.go:buildIndexFetchQuery"),("row parsing","parseColumnFetchResult, parseIndexFetchResult")],["HTTP request body; returned rows"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
