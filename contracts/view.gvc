// The report's view of plans, indexes and examinations.
ghost myOf [ref]ref
ghost pgOf [ref]ref
ghost spanOf [ref]ref

func database/dmodel.IndexColumn.ToViewModel(ic) (vm)
  prop P19
  main P19
  frame
  ensures new: vm != nil && !existed(vm)
  ensures name: vm.Name == ic.Name

pure viewsTarget(vm *viewmodel.VmIndexTarget, it *dmodel.IndexTarget) bool = vm != nil && live(vm) && vm.TableName == it.TableName && len(vm.Columns) == len(it.Columns)
     && (forall k int :: {vm.Columns[k]} 0 <= k < len(vm.Columns) ==> vm.Columns[k] != nil && live(vm.Columns[k]) && vm.Columns[k].Name == it.Columns[k].Name)

func database/dmodel.IndexTarget.ToViewModel(it) (vm)
  prop P19
  main P19
  frame
  requires nn: forall k int :: {it.Columns[k]} 0 <= k < len(it.Columns) ==> it.Columns[k] != nil
  ensures new: vm != nil && !existed(vm)
  ensures view: viewsTarget(vm, it)
  inv n(i $i, vm *viewmodel.VmIndexTarget): vm != nil && !existed(vm) && live(vm) && vm.TableName == it.TableName && len(vm.Columns) == i
  inv c(i $i, vm *viewmodel.VmIndexTarget): forall k int :: {vm.Columns[k]} 0 <= k < i ==> live(vm.Columns[k]) && vm.Columns[k] != nil && vm.Columns[k].Name == it.Columns[k].Name

pure okTarget(it *dmodel.IndexTarget) bool = it != nil && (forall k int :: {it.Columns[k]} 0 <= k < len(it.Columns) ==> it.Columns[k] != nil)

func database/dmodel.ExaminationIndexResult.ToViewModel(r) (vm)
  prop P19
  main P19
  frame
  requires nn: okTarget(r.IndexTarget)
  ensures new: vm != nil && !existed(vm)
  ensures time: vm.ExecutionTimeMillis == r.ExecutionTimeMillis
  ensures target: viewsTarget(vm.IndexTarget, r.IndexTarget)

pure okExam(er *dmodel.ExaminationResult) bool = forall k int :: {er.IndexResults[k]} 0 <= k < len(er.IndexResults) ==> er.IndexResults[k] != nil && okTarget(er.IndexResults[k].IndexTarget)
pure viewsExam(vm *viewmodel.VmExaminationResult, er *dmodel.ExaminationResult) bool = vm != nil && vm.OriginalTimeMillis == er.OriginalTimeMillis && len(vm.IndexResults) == len(er.IndexResults)
     && (forall k int :: {vm.IndexResults[k]} 0 <= k < len(vm.IndexResults) ==> vm.IndexResults[k] != nil && vm.IndexResults[k].ExecutionTimeMillis == er.IndexResults[k].ExecutionTimeMillis
         && viewsTarget(vm.IndexResults[k].IndexTarget, er.IndexResults[k].IndexTarget))

func database/dmodel.ExaminationResult.ToViewModel(er) (vm)
  prop P19
  main P19
  frame
  requires nn: okExam(er)
  ensures new: vm != nil && !existed(vm)
  ensures view: viewsExam(vm, er)
  inv n(i $i, r []*viewmodel.VmExaminationIndexResult): len(r) == i
  inv c(i $i, r []*viewmodel.VmExaminationIndexResult): forall k int :: {r[k]} 0 <= k < i ==> live(r[k]) && r[k] != nil && r[k].ExecutionTimeMillis == er.IndexResults[k].ExecutionTimeMillis
     && live(r[k].IndexTarget) && viewsTarget(r[k].IndexTarget, er.IndexResults[k].IndexTarget)

// Sets of nodes closed under Children, whatever they are: the contracts hold for each of them.
pure myNode(n ref) bool
pure pgNode(n ref) bool
pure spNode(n ref) bool

pure viewsMy(v *viewmodel.VmMysqlExplainAnalyzeNode, n *mmodel.ExplainAnalyzeTreeNode) bool =
     v.Text == n.AnalyzeResultLine.Text && v.TableName == n.AnalyzeResultLine.TableName
  && v.EstimatedInitCost == n.AnalyzeResultLine.EstimatedInitCost && v.EstimatedCost == n.AnalyzeResultLine.EstimatedCost
  && v.EstimatedReturnedRows == n.AnalyzeResultLine.EstimatedReturnedRows && v.ActualTimeFirstRow == n.AnalyzeResultLine.ActualTimeFirstRow
  && v.ActualTimeAvg == n.AnalyzeResultLine.ActualTimeAvg && v.ActualReturnedRows == n.AnalyzeResultLine.ActualReturnedRows
  && v.ActualLoopCount == n.AnalyzeResultLine.ActualLoopCount
pure viewsPg(v *viewmodel.VmPostgresExplainAnalyzeNode, n *pmodel.ExplainAnalyzeTreeNode) bool =
     v.Text == strings_Join(n.AnalyzeResultNode.Lines, "\n") && v.TableName == n.AnalyzeResultNode.TableName
  && v.EstimatedInitCost == n.AnalyzeResultNode.EstimatedInitCost && v.EstimatedCost == n.AnalyzeResultNode.EstimatedCost
  && v.EstimatedReturnedRows == n.AnalyzeResultNode.EstimatedReturnedRows && v.EstimatedWidth == n.AnalyzeResultNode.EstimatedWidth
  && v.ActualTimeFirstRow == n.AnalyzeResultNode.ActualTimeFirstRow
  && v.ActualTimeAvg == n.AnalyzeResultNode.ActualTimeAvg && v.ActualReturnedRows == n.AnalyzeResultNode.ActualReturnedRows
  && v.ActualLoopCount == n.AnalyzeResultNode.ActualLoopCount
pure viewsSpan(v *viewmodel.VmOtelTraceSpan, n *omodel.Span) bool =
     v.Name == n.Name && v.ServiceName == n.ServiceName && v.StartTimeMillis == n.StartTimeUnixNano / 1000000 && v.EndTimeMillis == n.EndTimeUnixNano / 1000000

func database/mysql/mmodel.ExplainAnalyzeTreeNode.ToViewModel(n) (vm)
  prop P19
  main P19
  frame
  set myOf = store(myOf, vm, n)
  requires root: myNode(n)
  requires closed: forall x *mmodel.ExplainAnalyzeTreeNode :: {myNode(x)} myNode(x) ==> x != nil && existed(x) && x.AnalyzeResultLine != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> myNode(x.Children[k]))
  requires fresh: forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  ensures new: vm != nil && !existed(vm) && live(vm) && myOf[vm] == n
  ensures keep: forall x ref :: {myOf[x]} existed(x) ==> myOf[x] == old(myOf[x])
  ensures fresh: forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  ensures node: forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> myNode(myOf[v]) && viewsMy(v, typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> len(v.Children) == len(typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && myOf[v.Children[k]] == typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children[k])
  inv self(i $i, vm *viewmodel.VmMysqlExplainAnalyzeNode): vm != nil && !existed(vm) && live(vm) && myOf[vm] == nil && viewsMy(vm, n) && len(vm.Children) == i
  inv kid(i $i, vm *viewmodel.VmMysqlExplainAnalyzeNode): forall k int :: {vm.Children[k]} 0 <= k < i ==> vm.Children[k] != nil && live(vm.Children[k]) && !existed(vm.Children[k]) && myOf[vm.Children[k]] == n.Children[k]
  inv keep(): forall x ref :: {myOf[x]} existed(x) ==> myOf[x] == old(myOf[x])
  inv fresh(): forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  inv node(): forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> myNode(myOf[v]) && viewsMy(v, typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode"))
  inv kids(): forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> len(v.Children) == len(typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && myOf[v.Children[k]] == typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children[k])

func database/mysql/mmodel.ExplainAnalyzeTree.ToViewModel(t) (res)
  prop P19
  main P19
  frame
  requires root: myNode(t.Root)
  requires closed: forall x *mmodel.ExplainAnalyzeTreeNode :: {myNode(x)} myNode(x) ==> x != nil && existed(x) && x.AnalyzeResultLine != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> myNode(x.Children[k]))
  requires fresh: forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  ensures top: len(res) == len(t.Root.Children) && (forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && live(res[k]) && !existed(res[k]) && myOf[res[k]] == t.Root.Children[k])
  ensures keep: forall x ref :: {myOf[x]} existed(x) ==> myOf[x] == old(myOf[x])
  ensures fresh: forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  ensures node: forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> myNode(myOf[v]) && viewsMy(v, typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> len(v.Children) == len(typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && myOf[v.Children[k]] == typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children[k])
  inv n(i $i, res []*viewmodel.VmMysqlExplainAnalyzeNode): len(res) == i
  inv top(i $i, res []*viewmodel.VmMysqlExplainAnalyzeNode): forall k int :: {res[k]} 0 <= k < i ==> res[k] != nil && live(res[k]) && !existed(res[k]) && myOf[res[k]] == t.Root.Children[k]
  inv keep(): forall x ref :: {myOf[x]} existed(x) ==> myOf[x] == old(myOf[x])
  inv fresh(): forall x ref :: {myOf[x]} !live(x) ==> myOf[x] == nil
  inv node(): forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> myNode(myOf[v]) && viewsMy(v, typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode"))
  inv kids(): forall v *viewmodel.VmMysqlExplainAnalyzeNode :: {myOf[v]} !existed(v) && myOf[v] != nil ==> len(v.Children) == len(typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && myOf[v.Children[k]] == typed(myOf[v], "*mmodel.ExplainAnalyzeTreeNode").Children[k])

func database/postgres/pmodel.ExplainAnalyzeTreeNode.ToViewModel(n) (vm)
  prop P19
  main P19
  frame
  set pgOf = store(pgOf, vm, n)
  requires root: pgNode(n)
  requires closed: forall x *pmodel.ExplainAnalyzeTreeNode :: {pgNode(x)} pgNode(x) ==> x != nil && existed(x) && x.AnalyzeResultNode != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> pgNode(x.Children[k]))
  requires fresh: forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  ensures new: vm != nil && !existed(vm) && live(vm) && pgOf[vm] == n
  ensures keep: forall x ref :: {pgOf[x]} existed(x) ==> pgOf[x] == old(pgOf[x])
  ensures fresh: forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  ensures node: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> pgNode(pgOf[v]) && viewsPg(v, typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> len(v.Children) == len(typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && pgOf[v.Children[k]] == typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children[k])
  inv self(i $i, vm *viewmodel.VmPostgresExplainAnalyzeNode): vm != nil && !existed(vm) && live(vm) && pgOf[vm] == nil && viewsPg(vm, n) && len(vm.Children) == i
  inv kid(i $i, vm *viewmodel.VmPostgresExplainAnalyzeNode): forall k int :: {vm.Children[k]} 0 <= k < i ==> vm.Children[k] != nil && live(vm.Children[k]) && !existed(vm.Children[k]) && pgOf[vm.Children[k]] == n.Children[k]
  inv keep(): forall x ref :: {pgOf[x]} existed(x) ==> pgOf[x] == old(pgOf[x])
  inv fresh(): forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  inv node(): forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> pgNode(pgOf[v]) && viewsPg(v, typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode"))
  inv kids(): forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> len(v.Children) == len(typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && pgOf[v.Children[k]] == typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children[k])

func database/postgres/pmodel.ExplainAnalyzeTree.ToViewModel(t) (res)
  prop P19
  main P19
  frame
  requires root: pgNode(t.Root)
  requires closed: forall x *pmodel.ExplainAnalyzeTreeNode :: {pgNode(x)} pgNode(x) ==> x != nil && existed(x) && x.AnalyzeResultNode != nil && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> pgNode(x.Children[k]))
  requires fresh: forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  ensures top: len(res) == len(t.Root.Children) && (forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && live(res[k]) && !existed(res[k]) && pgOf[res[k]] == t.Root.Children[k])
  ensures keep: forall x ref :: {pgOf[x]} existed(x) ==> pgOf[x] == old(pgOf[x])
  ensures fresh: forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  ensures node: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> pgNode(pgOf[v]) && viewsPg(v, typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode"))
  ensures kids: forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> len(v.Children) == len(typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && pgOf[v.Children[k]] == typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children[k])
  inv n(i $i, res []*viewmodel.VmPostgresExplainAnalyzeNode): len(res) == i
  inv top(i $i, res []*viewmodel.VmPostgresExplainAnalyzeNode): forall k int :: {res[k]} 0 <= k < i ==> res[k] != nil && live(res[k]) && !existed(res[k]) && pgOf[res[k]] == t.Root.Children[k]
  inv keep(): forall x ref :: {pgOf[x]} existed(x) ==> pgOf[x] == old(pgOf[x])
  inv fresh(): forall x ref :: {pgOf[x]} !live(x) ==> pgOf[x] == nil
  inv node(): forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> pgNode(pgOf[v]) && viewsPg(v, typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode"))
  inv kids(): forall v *viewmodel.VmPostgresExplainAnalyzeNode :: {pgOf[v]} !existed(v) && pgOf[v] != nil ==> len(v.Children) == len(typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && pgOf[v.Children[k]] == typed(pgOf[v], "*pmodel.ExplainAnalyzeTreeNode").Children[k])

func otel/omodel.Span.ToViewModel(n) (vm)
  prop P19
  main P19
  frame
  set spanOf = store(spanOf, vm, n)
  requires root: spNode(n)
  requires closed: forall x *omodel.Span :: {spNode(x)} spNode(x) ==> x != nil && existed(x) && (forall k int :: {x.Children[k]} 0 <= k < len(x.Children) ==> spNode(x.Children[k]))
  requires fresh: forall x ref :: {spanOf[x]} !live(x) ==> spanOf[x] == nil
  ensures new: vm != nil && !existed(vm) && live(vm) && spanOf[vm] == n
  ensures keep: forall x ref :: {spanOf[x]} existed(x) ==> spanOf[x] == old(spanOf[x])
  ensures fresh: forall x ref :: {spanOf[x]} !live(x) ==> spanOf[x] == nil
  ensures node: forall v *viewmodel.VmOtelTraceSpan :: {spanOf[v]} !existed(v) && spanOf[v] != nil ==> spNode(spanOf[v]) && viewsSpan(v, typed(spanOf[v], "*omodel.Span"))
  ensures kids: forall v *viewmodel.VmOtelTraceSpan :: {spanOf[v]} !existed(v) && spanOf[v] != nil ==> len(v.Children) == len(typed(spanOf[v], "*omodel.Span").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && spanOf[v.Children[k]] == typed(spanOf[v], "*omodel.Span").Children[k])
  inv kid(i $i, r []*viewmodel.VmOtelTraceSpan): forall k int :: {r[k]} 0 <= k < i ==> r[k] != nil && live(r[k]) && !existed(r[k]) && spanOf[r[k]] == n.Children[k]
  inv keep(): forall x ref :: {spanOf[x]} existed(x) ==> spanOf[x] == old(spanOf[x])
  inv fresh(): forall x ref :: {spanOf[x]} !live(x) ==> spanOf[x] == nil
  inv node(): forall v *viewmodel.VmOtelTraceSpan :: {spanOf[v]} !existed(v) && spanOf[v] != nil ==> spNode(spanOf[v]) && viewsSpan(v, typed(spanOf[v], "*omodel.Span"))
  inv kids(): forall v *viewmodel.VmOtelTraceSpan :: {spanOf[v]} !existed(v) && spanOf[v] != nil ==> len(v.Children) == len(typed(spanOf[v], "*omodel.Span").Children)
     && (forall k int :: {v.Children[k]} 0 <= k < len(v.Children) ==> v.Children[k] != nil && live(v.Children[k]) && !existed(v.Children[k]) && spanOf[v.Children[k]] == typed(spanOf[v], "*omodel.Span").Children[k])
