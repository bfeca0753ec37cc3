// Writing the report and choosing what is examined.
ghost nHtml int
ghost htmlPath string
ghost htmlBo ref
ghost nFile int
ghost filePath string

func os.Create(name) (f, err)
  trusted creates the named file only when it reports success
  modifies nFile filePath bad
  ensures b: bad <==> old(bad) || err != nil
  ensures log: err == nil ==> nFile == old(nFile) + 1 && filePath == name
  ensures none: err != nil ==> nFile == old(nFile)

func html.CreateHtml(htmlType, filename, bo) (err)
  prop P18 P19
  set nHtml = nHtml + 1
  set htmlPath = filename
  set htmlBo = bo
  requires bo: bo != nil
  requires clean [P18]: !bad
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures log: nHtml == old(nHtml) + 1 && htmlPath == filename && htmlBo == bo
  ensures file: err == nil ==> nFile == old(nFile) + 1 && filePath == filename
  ensures atmost: nFile == old(nFile) || nFile == old(nFile) + 1

pure bo() *html.BuildOption = typed(htmlBo, "*html.BuildOption")
pure okTargets(its []*dmodel.IndexTarget) bool = forall k int :: {its[k]} 0 <= k < len(its) ==> okTarget(its[k])
pure viewsTargets(v []*viewmodel.VmIndexTarget, its []*dmodel.IndexTarget) bool = len(v) == len(its) && (forall k int :: {v[k]} 0 <= k < len(v) ==> viewsTarget(v[k], its[k]))
pure safeT(it *dmodel.IndexTarget) bool = re_match("\\A\\w+\\z", it.TableName) && (forall k int :: {it.Columns[k]} 0 <= k < len(it.Columns) ==> it.Columns[k].Name == re_repl("\\W", it.Columns[k].Name, "_"))

func cmd/db/suggest.mysqlRunner.createHTML(mr, outputPath, its, er, aTree) (err)
  prop P18 P19
  lean P18
  main P19
  requires clean [P18]: !bad
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures wrote [P18]: nHtml == old(nHtml) + 1 && htmlPath == outputPath && (err == nil ==> nFile == old(nFile) + 1)
  requires tree: aTree != nil && myNode(aTree.Root)
  requires closed: forall x *mmodel.ExplainAnalyzeTreeNode :: {myNode(x)} myNode(x) ==> x != nil && existed(x) && x.AnalyzeResultLine != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> myNode(x.Children[k]))
  requires fresh: forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  requires its: okTargets(its)
  requires er: er != nil ==> okExam(er)
  ensures one: nHtml == old(nHtml) + 1 && htmlPath == outputPath
  ensures query: bo().SuggestData.MySQL.Query == mr.query
  ensures targets: viewsTargets(bo().SuggestData.MySQL.IndexTargets, its)
  ensures exam: er == nil ==> bo().SuggestData.MySQL.ExaminationResults == nil
  ensures examined: er != nil ==> viewsExam(bo().SuggestData.MySQL.ExaminationResults, er)
  ensures top: len(bo().SuggestData.MySQL.AnalyzeNodes) == len(aTree.Root.Children) && (forall k int :: {bo().SuggestData.MySQL.AnalyzeNodes[k]} 0 <= k < len(bo().SuggestData.MySQL.AnalyzeNodes) ==> bo().SuggestData.MySQL.AnalyzeNodes[k] != nil && !existed(bo().SuggestData.MySQL.AnalyzeNodes[k]) && myOf[bo().SuggestData.MySQL.AnalyzeNodes[k]] == aTree.Root.Children[k])
  ensures node: forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> myNode(myOf[v]) && viewsMy(v, typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> len(v.Children) == len(typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && !existed(v.Children[k]) && myOf[v.Children[k]] == typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children[k])
  inv v(i $i, r []*viewmodel.VmIndexTarget): forall k int :: {r[k]} 0 <= k < i ==> viewsTarget(r[k], its[k])
  inv n(i $i, r []*viewmodel.VmIndexTarget): len(r) == i
  inv fresh(): forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil

func cmd/db/suggest.mysqlRunner.examine(mr, db, varTargets, possibleTargets) (res, err)
  prop P19 P18
  lean P18
  main P19
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: !live && !failed && nEx == 0
  requires its: okTargets(varTargets) && okTargets(possibleTargets)
  rec safeN(i int) int = i <= 0 ? 0 : safeN(i - 1) + (safeT(possibleTargets[i - 1]) ? 1 : 0)
  ensures once [P18, P19]: nRun == old(nRun) + 1
  ensures given: len(varTargets) > 0 ==> ranOn == varTargets
  ensures count: len(varTargets) == 0 ==> len(ranOn) == safeN(len(possibleTargets))
  ensures safe: len(varTargets) == 0 ==> forall k int :: {possibleTargets[k]} 0 <= k < len(possibleTargets) && safeT(possibleTargets[k]) ==> ranOn[safeN(k)] == possibleTargets[k]
  ensures result: err == nil ==> res == ranRes
  inv fl(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget): len(result) == safeN(i)
  inv fs(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget): forall k int :: {possibleTargets[k]} 0 <= k < i && safeT(possibleTargets[k]) ==> result[safeN(k)] == possibleTargets[k]
  inv fm(i $i, collection []*dmodel.IndexTarget): forall k int :: {safeN(k)} 0 <= k < i ==> 0 <= safeN(k) && safeN(k) <= safeN(i) && (safeT(possibleTargets[k]) ==> safeN(k) < safeN(i))
  inv fo(result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < len(result) ==> okTarget(result[k])

func cmd/db/suggest.postgresRunner.createHTML(mr, outputPath, its, er, aTree) (err)
  prop P18 P19
  lean P18
  main P19
  requires clean [P18]: !bad
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures wrote [P18]: nHtml == old(nHtml) + 1 && htmlPath == outputPath && (err == nil ==> nFile == old(nFile) + 1)
  requires tree: aTree != nil && pgNode(aTree.Root)
  requires closed: forall x *pmodel.ExplainAnalyzeTreeNode :: {pgNode(x)} pgNode(x) ==> x != nil && existed(x) && x.AnalyzeResultNode != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> pgNode(x.Children[k]))
  requires fresh: forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  requires its: okTargets(its)
  requires er: er != nil ==> okExam(er)
  ensures one: nHtml == old(nHtml) + 1 && htmlPath == outputPath
  ensures query: bo().SuggestData.Postgres.Query == mr.query && bo().SuggestData.Postgres.SummaryText == aTree.SummaryText
  ensures targets: viewsTargets(bo().SuggestData.Postgres.IndexTargets, its)
  ensures exam: er == nil ==> bo().SuggestData.Postgres.ExaminationResults == nil
  ensures examined: er != nil ==> viewsExam(bo().SuggestData.Postgres.ExaminationResults, er)
  ensures top: len(bo().SuggestData.Postgres.AnalyzeNodes) == len(aTree.Root.Children) && (forall k int :: {bo().SuggestData.Postgres.AnalyzeNodes[k]} 0 <= k < len(bo().SuggestData.Postgres.AnalyzeNodes) ==> bo().SuggestData.Postgres.AnalyzeNodes[k] != nil && !existed(bo().SuggestData.Postgres.AnalyzeNodes[k]) && pgOf[bo().SuggestData.Postgres.AnalyzeNodes[k]] == aTree.Root.Children[k])
  ensures node: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> pgNode(pgOf[v]) && viewsPg(v, typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> len(v.Children) == len(typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && !existed(v.Children[k]) && pgOf[v.Children[k]] == typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children[k])
  inv v(i $i, r []*viewmodel.VmIndexTarget): forall k int :: {r[k]} 0 <= k < i ==> viewsTarget(r[k], its[k])
  inv n(i $i, r []*viewmodel.VmIndexTarget): len(r) == i
  inv fresh(): forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil

func cmd/db/suggest.postgresRunner.examine(mr, db, varTargets, possibleTargets) (res, err)
  prop P19 P18
  lean P18
  main P19
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: !live && !failed && nEx == 0
  requires its: okTargets(varTargets) && okTargets(possibleTargets)
  rec safeN(i int) int = i <= 0 ? 0 : safeN(i - 1) + (safeT(possibleTargets[i - 1]) ? 1 : 0)
  ensures once [P18, P19]: nRun == old(nRun) + 1
  ensures given: len(varTargets) > 0 ==> ranOn == varTargets
  ensures count: len(varTargets) == 0 ==> len(ranOn) == safeN(len(possibleTargets))
  ensures safe: len(varTargets) == 0 ==> forall k int :: {possibleTargets[k]} 0 <= k < len(possibleTargets) && safeT(possibleTargets[k]) ==> ranOn[safeN(k)] == possibleTargets[k]
  ensures result: err == nil ==> res == ranRes
  inv fl(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget): len(result) == safeN(i)
  inv fs(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget): forall k int :: {possibleTargets[k]} 0 <= k < i && safeT(possibleTargets[k]) ==> result[safeN(k)] == possibleTargets[k]
  inv fm(i $i, collection []*dmodel.IndexTarget): forall k int :: {safeN(k)} 0 <= k < i ==> 0 <= safeN(k) && safeN(k) <= safeN(i) && (safeT(possibleTargets[k]) ==> safeN(k) < safeN(i))
  inv fo(result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < len(result) ==> okTarget(result[k])

func cmd/db/suggest/hasura.postgresRunner.createHTML(mr, outputPath, variables, sql, its, er, aTree) (err)
  prop P18 P19
  lean P18
  main P19
  requires clean [P18]: !bad
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures wrote [P18]: nHtml == old(nHtml) + 1 && htmlPath == outputPath && (err == nil ==> nFile == old(nFile) + 1)
  requires tree: aTree != nil && pgNode(aTree.Root)
  requires closed: forall x *pmodel.ExplainAnalyzeTreeNode :: {pgNode(x)} pgNode(x) ==> x != nil && existed(x) && x.AnalyzeResultNode != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> pgNode(x.Children[k]))
  requires fresh: forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  requires its: okTargets(its)
  requires er: er != nil ==> okExam(er)
  ensures one: nHtml == old(nHtml) + 1 && htmlPath == outputPath
  ensures query: bo().SuggestData.Hasura.Postgres.Gql == mr.query && bo().SuggestData.Hasura.Postgres.SummaryText == aTree.SummaryText && bo().SuggestData.Hasura.Postgres.Query == sql
  ensures targets: viewsTargets(bo().SuggestData.Hasura.Postgres.IndexTargets, its)
  ensures exam: er == nil ==> bo().SuggestData.Hasura.Postgres.ExaminationResults == nil
  ensures examined: er != nil ==> viewsExam(bo().SuggestData.Hasura.Postgres.ExaminationResults, er)
  ensures top: len(bo().SuggestData.Hasura.Postgres.AnalyzeNodes) == len(aTree.Root.Children) && (forall k int :: {bo().SuggestData.Hasura.Postgres.AnalyzeNodes[k]} 0 <= k < len(bo().SuggestData.Hasura.Postgres.AnalyzeNodes) ==> bo().SuggestData.Hasura.Postgres.AnalyzeNodes[k] != nil && !existed(bo().SuggestData.Hasura.Postgres.AnalyzeNodes[k]) && pgOf[bo().SuggestData.Hasura.Postgres.AnalyzeNodes[k]] == aTree.Root.Children[k])
  ensures node: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> pgNode(pgOf[v]) && viewsPg(v, typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> len(v.Children) == len(typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && !existed(v.Children[k]) && pgOf[v.Children[k]] == typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children[k])
  inv v(i $i, r []*viewmodel.VmIndexTarget): forall k int :: {r[k]} 0 <= k < i ==> viewsTarget(r[k], its[k])
  inv n(i $i, r []*viewmodel.VmIndexTarget): len(r) == i
  inv fresh(): forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil

func cmd/db/suggest/hasura.postgresRunner.examine(mr, cli, varTargets, possibleTargets) (res, err)
  prop P19 P18
  lean P18
  main P19
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: !live && !failed && nEx == 0
  requires its: okTargets(varTargets) && okTargets(possibleTargets)
  rec safeN(i int) int = i <= 0 ? 0 : safeN(i - 1) + (safeT(possibleTargets[i - 1]) ? 1 : 0)
  ensures once [P18, P19]: nRun == old(nRun) + 1
  ensures given: len(varTargets) > 0 ==> ranOn == varTargets
  ensures count: len(varTargets) == 0 ==> len(ranOn) == safeN(len(possibleTargets))
  ensures safe: len(varTargets) == 0 ==> forall k int :: {possibleTargets[k]} 0 <= k < len(possibleTargets) && safeT(possibleTargets[k]) ==> ranOn[safeN(k)] == possibleTargets[k]
  ensures result: err == nil ==> res == ranRes
  inv fl(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget): len(result) == safeN(i)
  inv fs(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget): forall k int :: {possibleTargets[k]} 0 <= k < i && safeT(possibleTargets[k]) ==> result[safeN(k)] == possibleTargets[k]
  inv fm(i $i, collection []*dmodel.IndexTarget): forall k int :: {safeN(k)} 0 <= k < i ==> 0 <= safeN(k) && safeN(k) <= safeN(i) && (safeT(possibleTargets[k]) ==> safeN(k) < safeN(i))
  inv fo(result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < len(result) ==> okTarget(result[k])
