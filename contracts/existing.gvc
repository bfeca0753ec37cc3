// Removal of candidates that already exist.
ghost giCalls int
ghost giDb string
ghost giTables []string
ghost giRes []*dmodel.IndexTarget

axiom fold_sym: forall a string, b string :: {strings_EqualFold(a, b)} strings_EqualFold(a, b) <==> strings_EqualFold(b, a)

pure sameCols(a []*dmodel.IndexColumn, b []*dmodel.IndexColumn) bool = len(a) == len(b)
   && (forall c int :: {a[c]} {b[c]} 0 <= c < len(a) ==> strings_EqualFold(a[c].Name, b[c].Name))
// position of the first occurrence
pure fo(s []*dmodel.IndexTarget, x *dmodel.IndexTarget) int
axiom fo_def: forall s []*dmodel.IndexTarget, k int :: {s[k], fo(s, s[k])} 0 <= k < len(s) ==> 0 <= fo(s, s[k]) && fo(s, s[k]) <= k && s[fo(s, s[k])] == s[k]

// catalog lookups of the three dialects
ghost iqN int
ghost iqDb string
ghost iqTables []string
ghost iqRes [int]ref
ghost iqResN int
ghost iqErr bool

pure mem(s []*dmodel.IndexTarget, x *dmodel.IndexTarget) bool = 0 <= fo(s, x) && fo(s, x) < len(s) && s[fo(s, x)] == x

method database/dservice.IndexGetter.GetIndexes(ig, database, tables) (res, err)
  modifies giCalls giDb giTables giRes bad
  ensures b: bad <==> old(bad) || err != nil
  ensures log: giCalls == old(giCalls) + 1 && giDb == database && giTables == tables && giRes == res
  ensures wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil

func database/dservice.ExistingIndexRemover.Remove(r) (res, err)
  prop P05 P18
  lean P18
  main P05
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: giCalls == 0
  requires wf: forall k int :: {r.idxTargets[k]} 0 <= k < len(r.idxTargets) ==> r.idxTargets[k] != nil
  ensures none: len(r.idxTargets) == 0 ==> err == nil && len(res) == 0
  ensures asked: err == nil && len(r.idxTargets) > 0 ==> giCalls == 1 && giDb == r.dbName
  ensures asked_all: err == nil ==> forall k int :: {r.idxTargets[k]} 0 <= k < len(r.idxTargets) ==> mems(giTables, r.idxTargets[k].TableName)
  ensures kept_ok: err == nil ==> forall k int, j int :: {res[k], giRes[j]} 0 <= k < len(res) && 0 <= j < len(giRes) && giRes[j].TableName == res[k].TableName ==> !sameCols(res[k].Columns, giRes[j].Columns)
  ensures kept_from: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> mem(r.idxTargets, res[k])
  ensures order: err == nil ==> forall k int, l int :: {res[k], res[l]} 0 <= k < l && l < len(res) ==> fo(r.idxTargets, res[k]) < fo(r.idxTargets, res[l])
  ensures complete: err == nil ==> forall k int :: {r.idxTargets[k]} 0 <= k < len(r.idxTargets) ==>
       (exists j int :: {giRes[j]} 0 <= j < len(giRes) && giRes[j].TableName == r.idxTargets[k].TableName && sameCols(r.idxTargets[k].Columns, giRes[j].Columns))
    || mem(res, r.idxTargets[k])
  // lo.Uniq on targets
  inv uq_lt(i $i, result []*dmodel.IndexTarget) @Uniq: forall k int :: {result[k]} 0 <= k < len(result) ==> 0 <= fo(r.idxTargets, result[k]) < i && r.idxTargets[fo(r.idxTargets, result[k])] == result[k]
  inv uq_done(result []*dmodel.IndexTarget, seen map[*dmodel.IndexTarget]struct{}) @Uniq: forall x *dmodel.IndexTarget :: {x in seen} x in seen ==> mem(result, x)
  inv uq_all(i $i, collection []*dmodel.IndexTarget, seen map[*dmodel.IndexTarget]struct{}) @Uniq: forall k int :: {collection[k]} 0 <= k < i ==> collection[k] in seen
  inv uq_ord(result []*dmodel.IndexTarget): forall k int, l int :: {result[k], result[l]} 0 <= k < l && l < len(result) ==> fo(r.idxTargets, result[k]) < fo(r.idxTargets, result[l])
  // the table names
  inv mp(i $i, collection []*dmodel.IndexTarget, result []string) @Map: forall k int :: {result[k]} {collection[k]} 0 <= k < i ==> result[k] == collection[k].TableName
  inv us_done(result []string, seen map[string]struct{}) @Uniq: forall x string :: {x in seen} x in seen ==> mems(result, x)
  inv us_all(i $i, collection []string, seen map[string]struct{}) @Uniq: forall k int :: {collection[k]} 0 <= k < i ==> collection[k] in seen
  // existing indexes by table
  inv gb_from(i $i, collection []*dmodel.IndexTarget, result map[string][]*dmodel.IndexTarget) @GroupBy: forall t string, p int :: {result[t][p]} t in result && 0 <= p < len(result[t]) ==> mem(collection, result[t][p]) && fo(collection, result[t][p]) < i && result[t][p].TableName == t
  inv gb_all(i $i, collection []*dmodel.IndexTarget, result map[string][]*dmodel.IndexTarget) @GroupBy: forall k int :: {collection[k]} 0 <= k < i ==> collection[k].TableName in result && mem(result[collection[k].TableName], collection[k])
  // the filter
  inv fl_from(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget) @Filter: forall k int :: {result[k]} 0 <= k < len(result) ==> mem(collection, result[k]) && fo(collection, result[k]) < i
  inv fl_ok(result []*dmodel.IndexTarget) @Filter: forall k int, j int :: {result[k], giRes[j]} 0 <= k < len(result) && 0 <= j < len(giRes) && giRes[j].TableName == result[k].TableName ==> !sameCols(result[k].Columns, giRes[j].Columns)
  inv fl_done(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget) @Filter: forall k int :: {collection[k]} 0 <= k < i ==>
       (exists j int :: {giRes[j]} 0 <= j < len(giRes) && giRes[j].TableName == collection[k].TableName && sameCols(collection[k].Columns, giRes[j].Columns))
    || mem(result, collection[k])
  inv fl_ord(i $i, collection []*dmodel.IndexTarget, result []*dmodel.IndexTarget) @Filter: forall k int, j int :: {result[k], collection[j]} 0 <= k < len(result) && i <= j && j < len(collection) ==> fo(r.idxTargets, result[k]) < fo(r.idxTargets, collection[j])
  inv in_no(i $i, idxes []*dmodel.IndexTarget, it *dmodel.IndexTarget) @removeMatched: forall k int :: {idxes[k]} 0 <= k < i ==> !sameCols(it.Columns, idxes[k].Columns)

func database/dmodel.IndexTarget.HasSameIdxColumns(it, info) (res)
  prop P05
  main P05
  frame
  ensures exact: res <==> sameCols(it.Columns, info.Columns)
  inv hs(i $i): forall c int :: {it.Columns[c]} {info.Columns[c]} 0 <= c < i ==> strings_EqualFold(it.Columns[c].Name, info.Columns[c].Name)

func infra/mysql.DB.GetIndexes(db, database, tables) (res, err)
  prop P18
  trusted catalog query; its row grouping is under its own contract
  modifies iqN iqDb iqTables bad
  set iqN = iqN + 1
  set iqDb = database
  set iqTables = tables
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: iqN == old(iqN) + 1 && iqDb == database && iqTables == tables
  assumes wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k] == typed(iqRes[k], "*mysql.IndexInfo")
  assumes n: err == nil ==> len(res) == iqResN
  assumes e: (err != nil) <==> iqErr

func database/mysql/mservice.IndexGetter.GetIndexes(ig, dbName, tables) (res, err)
  prop P05 P18
  lean P18
  main P05
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: iqN == 0
  ensures asked: iqN == 1 && iqDb == dbName && iqTables == tables
  ensures fails: (err != nil) <==> iqErr
  ensures count: err == nil ==> len(res) == iqResN
  ensures each: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k].TableName == typed(iqRes[k], "*mysql.IndexInfo").TableName
     && len(res[k].Columns) == len(typed(iqRes[k], "*mysql.IndexInfo").Columns)
     && (forall c int :: {res[k].Columns[c]} 0 <= c < len(res[k].Columns) ==> res[k].Columns[c] != nil && res[k].Columns[c].Name == typed(iqRes[k], "*mysql.IndexInfo").Columns[c])
  inv o(i $i, collection []*mysql.IndexInfo, result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && result[k].TableName == collection[k].TableName
     && len(result[k].Columns) == len(collection[k].Columns)
     && (forall c int :: {result[k].Columns[c]} 0 <= c < len(result[k].Columns) ==> result[k].Columns[c] != nil && result[k].Columns[c].Name == collection[k].Columns[c])
  inv nw(i $i, result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < i ==> existed(result[k]) == false
  inv c(i $i, collection []string, result []*dmodel.IndexColumn): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && result[k].Name == collection[k]

func infra/postgres.DB.GetIndexes(db, database, tables) (res, err)
  prop P18
  trusted catalog query; its row grouping is under its own contract
  modifies iqN iqDb iqTables bad
  set iqN = iqN + 1
  set iqDb = database
  set iqTables = tables
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: iqN == old(iqN) + 1 && iqDb == database && iqTables == tables
  assumes wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k] == typed(iqRes[k], "*postgres.IndexInfo")
  assumes n: err == nil ==> len(res) == iqResN
  assumes e: (err != nil) <==> iqErr

func database/postgres/pservice.IndexGetter.GetIndexes(ig, dbName, tables) (res, err)
  prop P05 P18
  lean P18
  main P05
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: iqN == 0
  ensures asked: iqN == 1 && iqDb == dbName && iqTables == tables
  ensures fails: (err != nil) <==> iqErr
  ensures count: err == nil ==> len(res) == iqResN
  ensures each: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k].TableName == typed(iqRes[k], "*postgres.IndexInfo").TableName
     && len(res[k].Columns) == len(typed(iqRes[k], "*postgres.IndexInfo").Columns)
     && (forall c int :: {res[k].Columns[c]} 0 <= c < len(res[k].Columns) ==> res[k].Columns[c] != nil && res[k].Columns[c].Name == typed(iqRes[k], "*postgres.IndexInfo").Columns[c])
  inv o(i $i, collection []*postgres.IndexInfo, result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && result[k].TableName == collection[k].TableName
     && len(result[k].Columns) == len(collection[k].Columns)
     && (forall c int :: {result[k].Columns[c]} 0 <= c < len(result[k].Columns) ==> result[k].Columns[c] != nil && result[k].Columns[c].Name == collection[k].Columns[c])
  inv nw(i $i, result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < i ==> existed(result[k]) == false
  inv c(i $i, collection []string, result []*dmodel.IndexColumn): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && result[k].Name == collection[k]

func infra/hasura.Client.GetIndexes(db, database, tables) (res, err)
  prop P18 P20
  trusted catalog query; its row grouping is under its own contract
  modifies iqN iqDb iqTables bad nSql sqlText sqlRO sqlRes
  set iqN = iqN + 1
  set iqDb = database
  set iqTables = tables
  set bad = bad || err != nil
  requires url [P18, P20]: db.baseURL != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures rejected [P20]: !(hword(database) && hwords(tables)) ==> err != nil && nSql == old(nSql)
  ensures sent [P20]: hword(database) && hwords(tables) ==> nSql == old(nSql) + 1 && sqlRO[old(nSql)]
     && quotedIn(sqlText[old(nSql)], database, strings_Join(seq(k, len(tables), "'" + tables[k] + "'"), ","))
  ensures each [P20]: err == nil ==> len(res) == entries(len(typed(sqlRes, "*infra/hasura.RunSQLResponse").Result)) && (forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil
     && res[k].TableName == typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][0] && res[k].Columns == pq_array(typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][1]))
  ensures log: iqN == old(iqN) + 1 && iqDb == database && iqTables == tables
  assumes wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k] == typed(iqRes[k], "*infra/hasura.IndexInfo")
  assumes n: err == nil ==> len(res) == iqResN
  assumes e: (err != nil) <==> iqErr

func database/hasura/hservice.IndexGetter.GetIndexes(ig, dbName, tables) (res, err)
  prop P05 P18
  lean P18
  main P05
  set bad = bad || err != nil
  requires url [P18]: ig.cli.baseURL != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: iqN == 0
  ensures asked: iqN == 1 && iqDb == dbName && iqTables == tables
  ensures fails: (err != nil) <==> iqErr
  ensures count: err == nil ==> len(res) == iqResN
  ensures each: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k].TableName == typed(iqRes[k], "*infra/hasura.IndexInfo").TableName
     && len(res[k].Columns) == len(typed(iqRes[k], "*infra/hasura.IndexInfo").Columns)
     && (forall c int :: {res[k].Columns[c]} 0 <= c < len(res[k].Columns) ==> res[k].Columns[c] != nil && res[k].Columns[c].Name == typed(iqRes[k], "*infra/hasura.IndexInfo").Columns[c])
  inv o(i $i, collection []*infra/hasura.IndexInfo, result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && result[k].TableName == collection[k].TableName
     && len(result[k].Columns) == len(collection[k].Columns)
     && (forall c int :: {result[k].Columns[c]} 0 <= c < len(result[k].Columns) ==> result[k].Columns[c] != nil && result[k].Columns[c].Name == collection[k].Columns[c])
  inv nw(i $i, result []*dmodel.IndexTarget): forall k int :: {result[k]} 0 <= k < i ==> existed(result[k]) == false
  inv c(i $i, collection []string, result []*dmodel.IndexColumn): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && result[k].Name == collection[k]

// rows ordered by (table, index, position) become one entry per index
func infra/mysql.toIndexInfo(rows) (res)
  prop P05
  main P05
  requires wf: forall k int :: {rows[k]} 0 <= k < len(rows) ==> rows[k] != nil && rows[k].TableName != ""
  rec gi(n int) int = n <= 0 ? 0 : gi(n - 1) + (n == 1 || rows[n-1].TableName != rows[n-2].TableName || rows[n-1].IndexName != rows[n-2].IndexName ? 1 : 0)
  rec cp(n int) int = n <= 1 ? 0 : (rows[n-1].TableName != rows[n-2].TableName || rows[n-1].IndexName != rows[n-2].IndexName ? 0 : cp(n - 1) + 1)
  ensures count: len(res) == gi(len(rows))
  ensures row: forall k int :: {rows[k]} 0 <= k < len(rows) ==> 0 <= gi(k + 1) - 1 < len(res) && res[gi(k + 1) - 1].TableName == rows[k].TableName
     && 0 <= cp(k + 1) < len(res[gi(k + 1) - 1].Columns) && res[gi(k + 1) - 1].Columns[cp(k + 1)] == rows[k].ColumnName
  ensures total: forall k int :: {rows[k]} 0 <= k < len(rows) && (k + 1 == len(rows) || gi(k + 2) != gi(k + 1)) ==> len(res[gi(k + 1) - 1].Columns) == cp(k + 1) + 1
  inv cnt(i $i, infos []*mysql.IndexInfo): len(infos) == gi(i)
  inv lastT(i $i, lastTName string): i > 0 ==> lastTName == rows[i-1].TableName
  inv lastI(i $i, lastIName string): i > 0 ==> lastIName == rows[i-1].IndexName
  inv last0(i $i, lastTName string): i == 0 ==> lastTName == ""
  inv mono(i $i): forall k int :: {rows[k]} 0 <= k < i ==> 1 <= gi(k + 1) <= gi(i) && 0 <= cp(k + 1)
  inv pos(i $i, infos []*mysql.IndexInfo): i > 0 ==> len(infos) > 0
  inv nn(infos []*mysql.IndexInfo): forall k int :: {infos[k]} 0 <= k < len(infos) ==> infos[k] != nil && existed(infos[k]) == false
  inv dist(infos []*mysql.IndexInfo): forall k int, l int :: {infos[k], infos[l]} 0 <= k < l && l < len(infos) ==> infos[k] != infos[l]
  inv rowi(i $i, infos []*mysql.IndexInfo): forall k int :: {rows[k]} 0 <= k < i ==> 0 <= gi(k + 1) - 1 < len(infos) && infos[gi(k + 1) - 1].TableName == rows[k].TableName
     && 0 <= cp(k + 1) < len(infos[gi(k + 1) - 1].Columns) && infos[gi(k + 1) - 1].Columns[cp(k + 1)] == rows[k].ColumnName
  inv toti(i $i, infos []*mysql.IndexInfo): forall k int :: {rows[k]} 0 <= k < i && (k + 1 == i || gi(k + 2) != gi(k + 1)) ==> len(infos[gi(k + 1) - 1].Columns) == cp(k + 1) + 1
  inv lastlen(i $i, infos []*mysql.IndexInfo): i > 0 ==> len(infos[len(infos) - 1].Columns) == cp(i) + 1

func infra/postgres.toIndexInfo(rows) (res)
  prop P05
  main P05
  requires wf: forall k int :: {rows[k]} 0 <= k < len(rows) ==> rows[k] != nil
  ensures count: len(res) == len(rows)
  ensures row: forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil && res[k].TableName == rows[k].TableName && res[k].Columns == rows[k].ColumnNames
  inv o(i $i, result []*postgres.IndexInfo): forall k int :: {result[k]} 0 <= k < i ==> result[k] != nil && existed(result[k]) == false && result[k].TableName == rows[k].TableName && result[k].Columns == rows[k].ColumnNames
