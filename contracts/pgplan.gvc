// PostgreSQL plan: lines into nodes, nodes into a tree.
pure isSum(line string) bool = re_match("^\\w[\\w ]+:", line)
pure isInfo(line string) bool = re_match("\\s*(\\w+ ?)+: ", line)
pure isArrow(line string) bool = re_match("\\s*-> ", line)

func database/postgres/pservice.ExplainAnalyzeTreeBuilder.Build(erb, L) (tree, err)
  prop P10 P18
  lean P18
  main P10
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  made nodes *pmodel.ExplainAnalyzeTreeNode
  // ty(i): kind of line i-1 (0 detail, 1 arrow, 2 plan name)
  rec ty(i int) int = i <= 0 ? 2 : (i == 1 ? 1 : (isInfo(L[i-1]) ? 0 : (isArrow(L[i-1]) ? 1 : 2)))
  // sb(i): 1 if line i starts a node
  rec sb(i int) int = i == 0 || !isInfo(L[i]) && (!isArrow(L[i]) || ty(i) != 2) ? 1 : 0
  // ns(i): nodes started by the first i lines
  rec ns(i int) int = i <= 0 ? 0 : ns(i - 1) + sb(i - 1)
  // fs(i, j): first line of node j, among the first i lines
  rec fs(i int, j int) int = i <= 0 ? 0 - 1 : (sb(i - 1) == 1 && ns(i - 1) == j ? i - 1 : fs(i - 1, j))
  // sm(i): first summary line at or after line i
  rec sm(i int) int = i >= len(L) ? len(L) : (isSum(L[i]) ? i : sm(i + 1))
  // the end of node j
  rec fe(j int) int = j + 1 < ns(sm(0)) ? fs(sm(0), j + 1) : sm(0)
  rec sp(j int) int = len(re_find("^\\s*", L[fs(sm(0), j)]))
  // np(i, s): nearest node before i indented less than s
  rec np(i int, s int) int = i <= 0 ? 0 - 1 : (sp(i - 1) < s ? i - 1 : np(i - 1, s))
  rec par(j int) int = np(j, sp(j))
  rec cc(p int, i int) int = i <= 0 ? 0 : cc(p, i - 1) + (par(i - 1) == p ? 1 : 0)
  rec ch(j int) int = cc(par(j), j)
  rec dep(j int) int = j < 0 ? 0 : (dep(par(j)) < 0 ? 1 : dep(par(j)) + 1)
  rec an(j int, d int) int = dep(j) == d ? j : an(par(j), d)

  ensures summary: err == nil ==> tree != nil && tree.SummaryText == strings_Join(seq(k, len(L) - sm(0), L[sm(0) + k]), "\n")
  ensures count: err == nil ==> len(nodes) == ns(sm(0)) + 1 && nodes[0] == tree.Root && tree.Root != nil
  ensures lines: err == nil ==> forall j int :: {nodes[j + 1]} 0 <= j < ns(sm(0)) ==> len(nodes[j + 1].AnalyzeResultNode.Lines) == fe(j) - fs(sm(0), j) && (forall k int :: {nodes[j + 1].AnalyzeResultNode.Lines[k]} 0 <= k < fe(j) - fs(sm(0), j) ==> nodes[j + 1].AnalyzeResultNode.Lines[k] == L[fs(sm(0), j) + k])
  ensures placed: err == nil ==> forall j int :: {nodes[j + 1]} 0 <= j < ns(sm(0)) ==> 0 <= ch(j) && nodes[par(j) + 1].Children[ch(j)] == nodes[j + 1]
  ensures nothingelse: err == nil ==> forall p int :: {nodes[p + 1]} 0 - 1 <= p < ns(sm(0)) ==> len(nodes[p + 1].Children) == cc(p, ns(sm(0)))
  ensures distinct: err == nil ==> forall a int, b int :: {nodes[a], nodes[b]} 0 <= a < b < len(nodes) ==> nodes[a] != nodes[b]

  // grouping loop
  inv gsum(i $i) @groupToPlanLineNodes: sm(0) == sm(i)
  inv gty(i $i, prevLineType int) @groupToPlanLineNodes: prevLineType == ty(i)
  inv gns(i $i) @groupToPlanLineNodes: ns(i) >= 0 && (i > 0 ==> ns(i) > 0)
  inv gcur(i $i, nodeLines []string) @groupToPlanLineNodes: i == 0 ? len(nodeLines) == 0 : len(nodeLines) == i - fs(i, ns(i) - 1) && fs(i, ns(i) - 1) >= 0 && fs(i, ns(i) - 1) < i
  inv gcl(i $i, nodeLines []string) @groupToPlanLineNodes: forall k int :: {nodeLines[k]} 0 <= k < len(nodeLines) ==> nodeLines[k] == L[fs(i, ns(i) - 1) + k]
  inv gdone(i $i, lineNodes [][]string) @groupToPlanLineNodes: len(lineNodes) == (i == 0 ? 0 : ns(i) - 1)
  inv gfs(i $i) @groupToPlanLineNodes: forall j int :: {fs(i, j)} 0 <= j < ns(i) ==> 0 <= fs(i, j) && fs(i, j) < i
  inv glen(i $i, lineNodes [][]string) @groupToPlanLineNodes: forall j int :: {lineNodes[j]} 0 <= j < len(lineNodes) ==> len(lineNodes[j]) == fs(i, j + 1) - fs(i, j) && len(lineNodes[j]) > 0
  inv gel(i $i, lineNodes [][]string) @groupToPlanLineNodes: forall j int, k int :: {lineNodes[j][k]} 0 <= j < len(lineNodes) && 0 <= k < len(lineNodes[j]) ==> lineNodes[j][k] == L[fs(i, j) + k]

  // tree loop
  inv num(i $i) @collect: len(nodes) == i + 1
  inv rt(root *pmodel.ExplainAnalyzeTreeNode) @collect: len(nodes) >= 1 && nodes[0] == root && root != nil && root.SpaceSize == 0 - 1
  inv lv(i $i) @collect: forall a int :: {nodes[a]} 0 <= a < len(nodes) ==> nodes[a] != nil && live(nodes[a]) && !existed(nodes[a])
  inv di(i $i) @collect: forall a int, b int :: {nodes[a], nodes[b]} 0 <= a < b < len(nodes) ==> nodes[a] != nodes[b]
  inv spc(i $i) @collect: forall j int :: {nodes[j + 1]} {sp(j)} 0 <= j < i ==> nodes[j + 1].SpaceSize == sp(j) && sp(j) >= 0
  inv ln(i $i, lineNodes [][]string) @collect: forall j int :: {nodes[j + 1]} 0 <= j < i ==> nodes[j + 1].AnalyzeResultNode != nil && live(nodes[j + 1].AnalyzeResultNode) && !existed(nodes[j + 1].AnalyzeResultNode) && nodes[j + 1].AnalyzeResultNode.Lines == lineNodes[j]
  inv npr(i $i) @collect: forall s int :: {np(i, s)} 0 - 1 <= np(i, s) && np(i, s) < i && (np(i, s) >= 0 ==> sp(np(i, s)) < s)
  inv npb(i $i) @collect: forall s int, k int :: {np(i, s), sp(k)} np(i, s) < k < i && 0 <= k ==> sp(k) >= s
  inv pr(i $i) @collect: forall j int :: {par(j)} 0 <= j < i ==> 0 - 1 <= par(j) && par(j) < j && (par(j) >= 0 ==> sp(par(j)) < sp(j))
  inv prb(i $i) @collect: forall j int, k int :: {par(j), sp(k)} 0 <= j < i && 0 <= k && par(j) < k < j ==> sp(k) >= sp(j)
  inv zero(i $i) @collect: forall p int :: {cc(p, i)} cc(p, i) >= 0 && (p >= i ==> cc(p, i) == 0)
  inv anr(i $i) @collect: forall j int, d int :: {dep(an(j, d))} 0 - 1 <= j < i && 0 <= d <= dep(j) ==> hint(an(par(j), d)) && hint(dep(par(j))) && 0 - 1 <= an(j, d) && an(j, d) <= j && dep(an(j, d)) == d && (d >= 1 ==> an(j, d) >= 0)
  inv anp(i $i) @collect: forall j int, d int :: {par(an(j, d))} 0 - 1 <= j < i && 1 <= d <= dep(j) ==> hint(an(par(j), d)) && hint(an(par(j), d - 1)) && hint(dep(par(j))) && par(an(j, d)) == an(j, d - 1)
  inv ana(i $i) @collect: forall j int, e int, d int :: {an(an(j, e), d)} 0 - 1 <= j < i && 0 <= d <= e && e <= dep(j) ==> hint(an(par(j), d)) && hint(an(par(j), e)) && hint(dep(par(j))) && an(an(j, e), d) == an(j, d)
  inv sz(i $i, nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode]) @collect: hint(dep(par(i - 1))) && len(nodeStack.vals) == dep(i - 1) + 1
  inv bot(nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode]) @collect: len(nodeStack.vals) >= 1 && nodeStack.vals[0] == nodes[0]
  inv st(i $i, nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode]) @collect: forall d int :: {nodeStack.vals[d]} 0 <= d <= dep(i - 1) ==> hint(an(par(i - 1), d)) && nodeStack.vals[d] == nodes[an(i - 1, d) + 1]
  inv plb(i $i) @collect: forall j int :: {ch(j)} 0 <= j < i ==> 0 <= ch(j) && ch(j) < cc(par(j), i)
  inv pl(i $i) @collect: forall j int :: {ch(j)} 0 <= j < i ==> nodes[par(j) + 1].Children[ch(j)] == nodes[j + 1]
  inv cl(i $i) @collect: forall p int :: {nodes[p + 1]} 0 - 1 <= p < i ==> len(nodes[p + 1].Children) == cc(p, i)
  inv pop(nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode], n *pmodel.ExplainAnalyzeTreeNode) @collect: 1 <= len(nodeStack.vals) && nodeStack.vals[0] == nodes[0] && nodes[0].SpaceSize == 0 - 1 && len(nodeStack.vals) <= entry(len(nodeStack.vals))
  inv pop2(nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode], n *pmodel.ExplainAnalyzeTreeNode) @collect: forall d int :: {nodeStack.vals[d]} 0 <= d < len(nodeStack.vals) ==> nodeStack.vals[d] == entry(nodeStack.vals[d])
  inv pop3(nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode], n *pmodel.ExplainAnalyzeTreeNode) @collect: forall k int :: {sp(k)} an(len(nodes) - 3, len(nodeStack.vals) - 1) < k && k < len(nodes) - 2 && 0 <= k ==> sp(k) >= n.SpaceSize
  inv popp(nodeStack *lib.Stack[pmodel.ExplainAnalyzeTreeNode], n *pmodel.ExplainAnalyzeTreeNode) @collect: dep(an(len(nodes) - 3, len(nodeStack.vals) - 1)) == len(nodeStack.vals) - 1 && (len(nodeStack.vals) >= 2 ==> par(an(len(nodes) - 3, len(nodeStack.vals) - 1)) == an(len(nodes) - 3, len(nodeStack.vals) - 2))
  inv nn(n *pmodel.ExplainAnalyzeTreeNode) @collect: n.SpaceSize >= 0
