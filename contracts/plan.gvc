// Plan lines and trees.
pure myNest(line string) int = len(re_find("^\\s*", line)) / 4
pure est(line string, k int) string = re_sub("\\(cost=([\\d.]+?)(\\.\\.([\\d.]+?))?( rows=(\\d+))?\\)", line, k)
pure hasEst(line string) bool = re_match("\\(cost=([\\d.]+?)(\\.\\.([\\d.]+?))?( rows=(\\d+))?\\)", line)
pure act(line string, k int) string = re_sub("\\(actual time=([\\d.]+?)\\.\\.([\\d.]+?) rows=(\\d+) loops=(\\d+)\\)", line, k)
pure hasAct(line string) bool = re_match("\\(actual time=([\\d.]+?)\\.\\.([\\d.]+?) rows=(\\d+) loops=(\\d+)\\)", line)
pure fok(s string) bool = parseFloat_ok(s, 64)
pure iok(s string) bool = parseInt_ok(s, 10, 64)
pure myBad(line string) bool = (hasEst(line) && (!fok(est(line, 1)) || est(line, 2) != "" && !fok(est(line, 3)) || est(line, 4) != "" && !iok(est(line, 5))))
   || (hasAct(line) && (!fok(act(line, 1)) || !fok(act(line, 2)) || !iok(act(line, 3)) || !iok(act(line, 4))))

func database/mysql/mmodel.ParseExplainAnalyzeResultLine(line) (nest, l, err)
  prop P09 P11
  main P09 P11
  frame
  ensures bad: err != nil <==> myBad(line)
  ensures text: err == nil ==> l != nil && fresh(l) && l.Text == line
  ensures nest: err == nil ==> nest == myNest(line)
  ensures est: err == nil ==> (l.EstimatedCost.Valid <==> hasEst(line)) && (l.EstimatedInitCost.Valid <==> hasEst(line) && est(line, 2) != "") && (l.EstimatedReturnedRows.Valid <==> hasEst(line) && est(line, 4) != "")
  ensures cost: err == nil && hasEst(line) ==> l.EstimatedCost.Float64 == parseFloat(est(line, 2) == "" ? est(line, 1) : est(line, 3), 64)
  ensures init: err == nil && hasEst(line) && est(line, 2) != "" ==> l.EstimatedInitCost.Float64 == parseFloat(est(line, 1), 64)
  ensures erows: err == nil && hasEst(line) && est(line, 4) != "" ==> l.EstimatedReturnedRows.Int64 == parseInt(est(line, 5), 10, 64)
  ensures act: err == nil ==> (l.ActualTimeFirstRow.Valid <==> hasAct(line)) && (l.ActualTimeAvg.Valid <==> hasAct(line)) && (l.ActualReturnedRows.Valid <==> hasAct(line)) && (l.ActualLoopCount.Valid <==> hasAct(line))
  ensures actv: err == nil && hasAct(line) ==> l.ActualTimeFirstRow.Float64 == parseFloat(act(line, 1), 64) && l.ActualTimeAvg.Float64 == parseFloat(act(line, 2), 64) && l.ActualReturnedRows.Int64 == parseInt(act(line, 3), 10, 64) && l.ActualLoopCount.Int64 == parseInt(act(line, 4), 10, 64)

func database/mysql/mservice.Explainer.buildExplainNode(e, explainLine) (root, err)
  prop P09 P18
  lean P18
  main P09
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  made nodes *mmodel.ExplainAnalyzeTreeNode
  rec cnt(i int) int = i <= 0 ? 0 : cnt(i - 1) + (strings_Split(explainLine, "\n")[i-1] != "" ? 1 : 0)
  rec last(i int, d int) int = i <= 0 ? 0 - 1 : (strings_Split(explainLine, "\n")[i-1] != "" && myNest(strings_Split(explainLine, "\n")[i-1]) == d ? i - 1 : last(i - 1, d))
  rec pn(i int) int = i <= 0 ? 0 - 1 : (strings_Split(explainLine, "\n")[i-1] != "" ? myNest(strings_Split(explainLine, "\n")[i-1]) : pn(i - 1))
  rec par(i int) int = myNest(strings_Split(explainLine, "\n")[i]) <= 0 ? 0 - 1 : last(i, myNest(strings_Split(explainLine, "\n")[i]) - 1)
  rec cc(p int, i int) int = i <= 0 ? 0 : cc(p, i - 1) + (strings_Split(explainLine, "\n")[i-1] != "" && par(i - 1) == p ? 1 : 0)
  ensures rejected: err != nil <==> (exists i int :: {strings_Split(explainLine, "\n")[i]} 0 <= i < len(strings_Split(explainLine, "\n")) && strings_Split(explainLine, "\n")[i] != "" && (myBad(strings_Split(explainLine, "\n")[i]) || myNest(strings_Split(explainLine, "\n")[i]) > pn(i) + 1))
  ensures count: err == nil ==> root != nil && len(nodes) == cnt(len(strings_Split(explainLine, "\n"))) + 1 && nodes[0] == root
  ensures text: err == nil ==> forall i int :: {strings_Split(explainLine, "\n")[i]} 0 <= i < len(strings_Split(explainLine, "\n")) && strings_Split(explainLine, "\n")[i] != "" ==> nodes[cnt(i) + 1].AnalyzeResultLine.Text == strings_Split(explainLine, "\n")[i]
  ensures placed: err == nil ==> forall i int :: {strings_Split(explainLine, "\n")[i]} 0 <= i < len(strings_Split(explainLine, "\n")) && strings_Split(explainLine, "\n")[i] != "" ==> 0 <= cc(par(i), i) && nodes[par(i) < 0 ? 0 : cnt(par(i)) + 1].Children[cc(par(i), i)] == nodes[cnt(i) + 1]
  ensures nothingelse: err == nil ==> len(root.Children) == cc(0 - 1, len(strings_Split(explainLine, "\n"))) && (forall p int :: {strings_Split(explainLine, "\n")[p]} 0 <= p < len(strings_Split(explainLine, "\n")) && strings_Split(explainLine, "\n")[p] != "" ==> len(nodes[cnt(p) + 1].Children) == cc(p, len(strings_Split(explainLine, "\n"))))
  ensures distinct: err == nil ==> forall a int, b int :: {nodes[a], nodes[b]} 0 <= a < b < len(nodes) ==> nodes[a] != nodes[b]
  inv ok(i $i, treeLines []string): forall k int :: {treeLines[k]} 0 <= k < i && treeLines[k] != "" ==> !myBad(treeLines[k]) && myNest(treeLines[k]) <= pn(k) + 1
  inv num(i $i): len(nodes) == cnt(i) + 1
  inv rt(root *mmodel.ExplainAnalyzeTreeNode): len(nodes) >= 1 && nodes[0] == root && root != nil
  inv lv(i $i): forall a int :: {nodes[a]} 0 <= a < len(nodes) ==> nodes[a] != nil && live(nodes[a]) && !existed(nodes[a])
  inv di(i $i): forall a int, b int :: {nodes[a], nodes[b]} 0 <= a < b < len(nodes) ==> nodes[a] != nodes[b]
  inv cn(i $i): forall k int :: {cnt(k)} 0 <= k <= i ==> 0 <= cnt(k) && cnt(k) <= cnt(i)
  inv cs(i $i, treeLines []string): forall k int :: {treeLines[k]} 0 <= k < i && treeLines[k] != "" ==> cnt(k) < cnt(i)
  inv cm(i $i, treeLines []string): forall a int, b int :: {treeLines[a], treeLines[b]} 0 <= a < b && b < i && treeLines[a] != "" ==> cnt(a) < cnt(b)
  inv ll(i $i, treeLines []string): forall d int :: {last(i, d)} 0 - 1 <= last(i, d) && last(i, d) < i && (last(i, d) >= 0 ==> treeLines[last(i, d)] != "")
  inv pr(i $i, treeLines []string): forall k int :: {treeLines[k]} {par(k)} 0 <= k < i && treeLines[k] != "" ==> 0 - 1 <= par(k) && par(k) < k && (par(k) >= 0 ==> treeLines[par(k)] != "")
  inv zero(i $i): forall p int :: {cc(p, i)} cc(p, i) >= 0 && (p >= i ==> cc(p, i) == 0)
  inv pnr(i $i): pn(i) >= 0 - 1
  inv sz(i $i, nodeStack *lib.Stack[mmodel.ExplainAnalyzeTreeNode]): len(nodeStack.vals) == pn(i) + 2 && nodeStack.vals[0] == nodes[0]
  inv st(i $i, nodeStack *lib.Stack[mmodel.ExplainAnalyzeTreeNode]): forall d int :: {nodeStack.vals[d]} 1 <= d < pn(i) + 2 ==> last(i, d - 1) >= 0 && nodeStack.vals[d] == nodes[cnt(last(i, d - 1)) + 1]
  inv tx(i $i, treeLines []string): forall k int :: {treeLines[k]} 0 <= k < i && treeLines[k] != "" ==> nodes[cnt(k) + 1].AnalyzeResultLine != nil && live(nodes[cnt(k) + 1].AnalyzeResultLine) && !existed(nodes[cnt(k) + 1].AnalyzeResultLine) && nodes[cnt(k) + 1].AnalyzeResultLine.Text == treeLines[k]
  inv pl(i $i, treeLines []string): forall k int :: {treeLines[k]} 0 <= k < i && treeLines[k] != "" ==> 0 <= cc(par(k), k) && cc(par(k), k) < cc(par(k), i) && nodes[par(k) < 0 ? 0 : cnt(par(k)) + 1].Children[cc(par(k), k)] == nodes[cnt(k) + 1]
  inv cr(i $i): len(nodes[0].Children) == cc(0 - 1, i)
  inv cl(i $i, treeLines []string): forall p int :: {treeLines[p]} 0 <= p < i && treeLines[p] != "" ==> len(nodes[cnt(p) + 1].Children) == cc(p, i)
  inv pop(nodeStack *lib.Stack[mmodel.ExplainAnalyzeTreeNode], nest int): nest + 1 <= len(nodeStack.vals) && len(nodeStack.vals) <= entry(len(nodeStack.vals))
  inv pop2(nodeStack *lib.Stack[mmodel.ExplainAnalyzeTreeNode]): forall d int :: {nodeStack.vals[d]} 0 <= d < len(nodeStack.vals) ==> nodeStack.vals[d] == entry(nodeStack.vals[d])

func database/mysql/mmodel.ExplainAnalyzeResultLine.EstimatedTotalTime(l) (t)
  prop P11
  main P11
  frame
  requires nn: l != nil
  ensures derived: t == ((l.ActualTimeAvg.Valid ? l.ActualTimeAvg.Float64 : flt(0, 1)) == flt(0, 1) && (l.ActualLoopCount.Valid ? l.ActualLoopCount.Int64 : 0) > 1000 ? flt(1, 10000) * i2f(l.ActualLoopCount.Int64) : (l.ActualTimeAvg.Valid ? l.ActualTimeAvg.Float64 : flt(0, 1)) * i2f(l.ActualLoopCount.Valid ? l.ActualLoopCount.Int64 : 0))

pure pest(line string, k int) string = re_sub("\\(cost=([\\d.]+?)\\.\\.([\\d.]+?) rows=(\\d+) width=(\\d+)\\)", line, k)
pure phasEst(line string) bool = re_match("\\(cost=([\\d.]+?)\\.\\.([\\d.]+?) rows=(\\d+) width=(\\d+)\\)", line)
pure isMetric(line string) bool = re_match("\\(cost=.+\\)( \\(actual .+\\))?", line)
pure pgBad(line string) bool = (phasEst(line) && (!fok(pest(line, 1)) || !fok(pest(line, 2)) || !iok(pest(line, 3)) || !iok(pest(line, 4))))
   || (hasAct(line) && (!fok(act(line, 1)) || !fok(act(line, 2)) || !iok(act(line, 3)) || !iok(act(line, 4))))

func database/postgres/pmodel.ParseExplainAnalyzeResultLineNode(lines) (space, l, err)
  prop P10 P11
  main P10 P11
  frame
  requires some: len(lines) > 0
  rec fm(i int) int = i >= len(lines) ? 0 - 1 : (isMetric(lines[i]) ? i : fm(i + 1))
  rec ml(i int) string = fm(i) >= 0 ? lines[fm(i)] : ""
  inv first(i $i): fm(0) == fm(i)
  ensures bad: err != nil <==> pgBad(ml(0))
  ensures text: err == nil ==> l != nil && fresh(l) && l.Lines == lines
  ensures nest: err == nil ==> space == len(re_find("^\\s*", lines[0]))
  ensures est: err == nil ==> (l.EstimatedCost.Valid <==> phasEst(ml(0))) && (l.EstimatedInitCost.Valid <==> phasEst(ml(0))) && (l.EstimatedReturnedRows.Valid <==> phasEst(ml(0))) && (l.EstimatedWidth.Valid <==> phasEst(ml(0)))
  ensures estv: err == nil && phasEst(ml(0)) ==> l.EstimatedInitCost.Float64 == parseFloat(pest(ml(0), 1), 64) && l.EstimatedCost.Float64 == parseFloat(pest(ml(0), 2), 64) && l.EstimatedReturnedRows.Int64 == parseInt(pest(ml(0), 3), 10, 64) && l.EstimatedWidth.Int64 == parseInt(pest(ml(0), 4), 10, 64)
  ensures act: err == nil ==> (l.ActualTimeFirstRow.Valid <==> hasAct(ml(0))) && (l.ActualTimeAvg.Valid <==> hasAct(ml(0))) && (l.ActualReturnedRows.Valid <==> hasAct(ml(0))) && (l.ActualLoopCount.Valid <==> hasAct(ml(0)))
  ensures actv: err == nil && hasAct(ml(0)) ==> l.ActualTimeFirstRow.Float64 == parseFloat(act(ml(0), 1), 64) && l.ActualTimeAvg.Float64 == parseFloat(act(ml(0), 2), 64) && l.ActualReturnedRows.Int64 == parseInt(act(ml(0), 3), 10, 64) && l.ActualLoopCount.Int64 == parseInt(act(ml(0), 4), 10, 64)

func database/postgres/pmodel.ExplainAnalyzeResultNode.EstimatedTotalTime(n) (t)
  prop P11
  main P11
  frame
  requires nn: n != nil
  ensures derived: t == (n.ActualTimeAvg.Valid ? n.ActualTimeAvg.Float64 : flt(0, 1))
