// Failures surface. "bad" records that some step failed: a call that leaves the
// program reported an error (or a status other than 200), or a function of the
// program returned an error. Every function below reports an error whenever it
// became bad, and a report may only be written while it is not.
func github.com/jmoiron/sqlx.DB.Select(db, dest, query, args) (err)
  trusted database driver
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func github.com/jmoiron/sqlx.In(query, args) (q, a, err)
  trusted builds the query
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func net/http.Client.Do(c, req) (res, err)
  trusted HTTP; a status other than 200 is a failed step
  modifies bad
  ensures nn: err == nil ==> res != nil
  ensures b: bad <==> old(bad) || err != nil || res.StatusCode != 200

func net/http.NewRequest(m, u, b) (req, err)
  trusted HTTP
  modifies bad
  ensures nn: err == nil ==> req != nil
  ensures b: bad <==> old(bad) || err != nil

func io.ReadAll(r) (b, err)
  trusted reader
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func encoding/json.Unmarshal(b, v) (err)
  trusted decoder
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func encoding/json.Marshal(v) (b, err)
  trusted encoder
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func infra/mysql.DB.Exec(db, query) (r, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: nSql == old(nSql) + 1 && sqlText == store(old(sqlText), old(nSql), query)

func infra/mysql.DB.ExplainWithAnalyze(db, query) (r, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func infra/postgres.DB.Exec(db, query) (r, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: nSql == old(nSql) + 1 && sqlText == store(old(sqlText), old(nSql), query)

func infra/postgres.DB.ExplainWithAnalyze(db, query) (r, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func infra/hasura.Client.post(c, pathname, body) (b, err)
  prop P18
  lean P18
  requires url: c.baseURL != nil
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func infra/hasura.Client.QueryWithoutResult(c, query, variables) (err)
  prop P18
  lean P18
  requires url: c.baseURL != nil
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func infra/hasura.Client.Explain(c, body) (r, err)
  prop P18
  lean P18
  requires url: c.baseURL != nil
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func github.com/pingcap/tidb/parser.Parser.Parse(p, sql, cs, coll) (ns, warns, err)
  trusted SQL parser
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func github.com/auxten/postgresql-parser/pkg/sql/parser.Parse(sql) (ns, err)
  trusted SQL parser
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func database/mysql/mservice.Parse(p, query) (n, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/postgres/pservice.Parse(query) (n, err)
  trusted returns the address of a slice element, which the verifier does not take; harness TestVerif_P18 stands in (bounded)
  modifies bad
  ensures surf: bad <==> old(bad) || err != nil

func database/mysql/mservice/parser.CollectTableNames(n) (names, errs)
  prop P18
  lean P18
  set bad = bad || len(errs) > 0
  ensures surf: bad <==> old(bad) || len(errs) > 0
  assumes nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil

func database/postgres/pservice/parser.CollectTableNames(n) (names, errs)
  trusted the traversal of the parser's tree recurses through a closure, which the verifier does not take; harness TestVerif_P18 stands in (bounded)
  modifies bad
  ensures surf: bad <==> old(bad) || len(errs) > 0
  assumes nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil

func database/mysql/mservice/parser.CollectStmtScopes(n) (scopes, errs)
  prop P18
  lean P18
  set bad = bad || len(errs) > 0
  ensures surf: bad <==> old(bad) || len(errs) > 0
  assumes nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil

func database/postgres/pservice/parser.CollectStmtScopes(n, schema) (scopes, errs)
  trusted the traversal of the parser's tree recurses through a closure, which the verifier does not take; harness TestVerif_P18 stands in (bounded)
  modifies bad
  ensures surf: bad <==> old(bad) || len(errs) > 0
  assumes nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil

func database/dservice/dparser.tableFieldsBuilder.calculateReferences(tfb, info) (cols, fields, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  inv nobad(): bad == entry(bad)

func database/dservice/dparser.IndexTargetBuilder.Build(b, scopes) (its, err)
  prop P18
  lean P18
  inv nobad(): bad == entry(bad)
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/mysql/mservice/parser.ListPossibleIndexes(db, dbName, n) (its, errs)
  prop P18
  lean P18
  set bad = bad || len(errs) > 0
  ensures surf: bad <==> old(bad) || len(errs) > 0
  ensures nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil

func database/postgres/pservice/parser.ListPossibleIndexes(db, dbName, n) (its, errs)
  prop P18
  lean P18
  set bad = bad || len(errs) > 0
  ensures surf: bad <==> old(bad) || len(errs) > 0
  ensures nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil

func database/hasura/hservice/parser.ListPossibleIndexes(db, n) (its, errs)
  prop P18
  lean P18
  requires url: db.baseURL != nil
  set bad = bad || len(errs) > 0
  ensures surf: bad <==> old(bad) || len(errs) > 0
  ensures nn: forall k int :: {errs[k]} 0 <= k < len(errs) ==> errs[k] != nil
  ensures url: db.baseURL == old(db.baseURL)

func database/mysql/mservice.IndexSuggester.Suggest(is, query) (its, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/postgres/pservice.IndexSuggester.Suggest(is, query) (its, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/hasura/hservice.IndexSuggester.Suggest(is, query) (its, err)
  prop P18
  lean P18
  requires url: is.cli.baseURL != nil
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/mysql/mservice.Explainer.ExplainWithAnalyze(e, query) (tree, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/postgres/pservice.Explainer.ExplainWithAnalyze(e, query) (tree, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func database/mysql/mservice.IndexExaminer.Execute(ie) (ms, err)
  prop P18
  lean P18
  ensures surf: bad <==> old(bad) || err != nil

func database/postgres/pservice.IndexExaminer.Execute(ie) (ms, err)
  prop P18
  lean P18
  ensures surf: bad <==> old(bad) || err != nil

func database/hasura/hservice.IndexExaminer.Execute(ie) (ms, err)
  prop P18
  lean P18
  requires url: ie.cli.baseURL != nil
  ensures surf: bad <==> old(bad) || err != nil

// runners
func cmd/db/suggest.mysqlRunner.suggest(mr, outputPath, db, dbName) (err)
  prop P18
  lean P18
  requires ok: !bad
  ensures surf: err == nil ==> !bad
  ensures written: err == nil && outputPath != "" ==> nHtml == old(nHtml) + 1 && htmlPath == outputPath && nFile == old(nFile) + 1
  ensures nothing: outputPath == "" ==> nHtml == old(nHtml) && nFile == old(nFile)
  ensures once: nHtml == old(nHtml) || nHtml == old(nHtml) + 1
  ensures optin: nRun == old(nRun) + (mr.runsExamination && nRun != old(nRun) ? 1 : 0)

func cmd/db/suggest.postgresRunner.suggest(mr, outputPath, db, schema) (err)
  prop P18
  lean P18
  requires ok: !bad
  ensures surf: err == nil ==> !bad
  ensures written: err == nil && outputPath != "" ==> nHtml == old(nHtml) + 1 && htmlPath == outputPath && nFile == old(nFile) + 1
  ensures nothing: outputPath == "" ==> nHtml == old(nHtml) && nFile == old(nFile)
  ensures once: nHtml == old(nHtml) || nHtml == old(nHtml) + 1
  ensures optin: nRun == old(nRun) + (mr.runsExamination && nRun != old(nRun) ? 1 : 0)

func cmd/db/suggest/hasura.postgresRunner.suggest(mr, outputPath, cli) (err)
  prop P18
  lean P18
  requires ok: !bad
  requires url: cli.baseURL != nil
  ensures surf: err == nil ==> !bad
  ensures written: err == nil && outputPath != "" ==> nHtml == old(nHtml) + 1 && htmlPath == outputPath && nFile == old(nFile) + 1
  ensures nothing: outputPath == "" ==> nHtml == old(nHtml) && nFile == old(nFile)
  ensures once: nHtml == old(nHtml) || nHtml == old(nHtml) + 1
  ensures optin: nRun == old(nRun) + (mr.runsExamination && nRun != old(nRun) ? 1 : 0)

func io/fs.ReadFile(fsys, name) (b, err)
  trusted embedded files
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func html/template.Template.Parse(t, text) (r, err)
  trusted template engine
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func html/template.Template.Execute(t, w, data) (err)
  trusted template engine
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

method github.com/aws/aws-sdk-go-v2/service/rds.DescribeDBInstancesAPIClient.DescribeDBInstances(c, ctx, in, opts) (out, err)
  modifies bad
  ensures b: bad <==> old(bad) || err != nil
  ensures nn: err == nil ==> out != nil

method github.com/aws/aws-sdk-go-v2/service/pi.GetResourceMetricsAPIClient.GetResourceMetrics(c, ctx, in, opts) (out, err)
  modifies bad
  ensures b: bad <==> old(bad) || err != nil
  ensures nn: err == nil ==> out != nil

func infra/aws.Rds.GetDBs(rds, engines) (dbs, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func infra/aws.PerformanceInsights.GetHalfDaySqlMetrics(p, db, start) (avgs, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func infra/aws.PerformanceInsights.GetHalfDayTokenizedSqlMetrics(p, db, start) (avgs, err)
  prop P18
  lean P18
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

func cmd/db/dig.piRunner.dig(pr, outputPath, rdsCli, piCli) (err)
  prop P18
  lean P18
  requires ok: !bad
  ensures surf: err == nil ==> !bad
  ensures written: err == nil ==> nHtml == old(nHtml) + 1 && htmlPath == outputPath && nFile == old(nFile) + 1
  ensures once: nHtml == old(nHtml) || nHtml == old(nHtml) + 1
  inv nobad(): !bad && nHtml == entry(nHtml) && nFile == entry(nFile)

func time.Parse(layout, value) (t, err)
  trusted time parsing
  modifies bad
  ensures b: bad <==> old(bad) || err != nil

func otel/omodel.TraceTree.ToCompactViewModel(tt) (r)
  trusted view model through the visitor (P15); no i/o
  ensures nn: r != nil

func otel/jaeger.TracePicker.PickSlowTraces(tp, num) (r)
  trusted ranking over container/heap (P14); no i/o


func cmd/app/dig.jaegerRunner.createHTML(jr, outputPath, slowTraces, sameServiceTraces) (err)
  prop P18
  lean P18
  requires ok: !bad
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures wrote [P18]: nHtml == old(nHtml) + 1 && htmlPath == outputPath && (err == nil ==> nFile == old(nFile) + 1)

func cmd/app/dig.jaegerRunner.dig(jr, outputPath, cli) (err)
  prop P18
  lean P18
  requires ok: !bad
  ensures surf [P18]: err == nil ==> !bad
  ensures written [P18]: err == nil && outputPath != "" ==> nHtml == old(nHtml) + 1 && htmlPath == outputPath && nFile == old(nFile) + 1
  ensures nothing [P18]: outputPath == "" ==> nHtml == old(nHtml) && nFile == old(nFile)
  ensures once [P18]: nHtml == old(nHtml) || nHtml == old(nHtml) + 1
  inv nobad() [P18]: bad == entry(bad) && nHtml == entry(nHtml) && nFile == entry(nFile)
