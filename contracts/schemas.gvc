// Table schemas from catalog rows (generated by tools/gen07.py: three dialects, one text)
ghost cqN int
ghost cqDb string
ghost cqTables []string
ghost cqErr bool

ghost cqMy []*mysql.ColumnInfo
func infra/mysql.DB.GetTableColumns(db, database, tables) (res, err)
  prop P18
  trusted catalog query; its rows are arbitrary
  modifies cqN cqDb cqTables bad
  set cqN = cqN + 1
  set cqDb = database
  set cqTables = tables
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: cqN == old(cqN) + 1 && cqDb == database && cqTables == tables
  assumes rows: err == nil ==> res == cqMy
  assumes wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil
  assumes e: (err != nil) <==> cqErr

func database/mysql/mservice/parser.CollectTableSchemas(db, dbName, tables) (res, err)
  prop P07 P18
  lean P18
  main P07
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: cqN == 0
  rec cnt(t string, n int) int = n <= 0 ? 0 : cnt(t, n - 1) + (cqMy[n-1].TableName == t ? 1 : 0)
  rec pcnt(t string, n int) int = n <= 0 ? 0 : pcnt(t, n - 1) + (cqMy[n-1].TableName == t && cqMy[n-1].ColumnKey == "PRI" ? 1 : 0)
  ensures asked: cqN == 1 && cqDb == dbName && cqTables == tables
  ensures fails: err != nil <==> (cqErr || (exists k int :: {tables[k]} 0 <= k < len(tables) && cnt(tables[k], len(cqMy)) == 0))
  ensures entries: err == nil ==> len(res) == len(tables) && (forall k int :: {res[k]} {tables[k]} 0 <= k < len(tables) ==> res[k] != nil && res[k].Name == tables[k]
      && len(res[k].Columns) == cnt(tables[k], len(cqMy)) && len(res[k].PrimaryKeys) == pcnt(tables[k], len(cqMy)))
  ensures column: err == nil ==> forall j int, k int :: {cqMy[j], res[k]} 0 <= j < len(cqMy) && 0 <= k < len(res) && tables[k] == cqMy[j].TableName ==>
      0 <= cnt(cqMy[j].TableName, j) < len(res[k].Columns) && res[k].Columns[cnt(cqMy[j].TableName, j)] != nil && res[k].Columns[cnt(cqMy[j].TableName, j)].Name == cqMy[j].ColumnName
  ensures key: err == nil ==> forall j int, k int :: {cqMy[j], res[k]} 0 <= j < len(cqMy) && 0 <= k < len(res) && tables[k] == cqMy[j].TableName && cqMy[j].ColumnKey == "PRI" ==>
      0 <= pcnt(cqMy[j].TableName, j) < len(res[k].PrimaryKeys) && res[k].PrimaryKeys[pcnt(cqMy[j].TableName, j)] == cqMy[j].ColumnName
  inv dom(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {cnt(t, i)} t in ts <==> cnt(t, i) > 0
  inv nn(i $i) @Create: forall t string :: {cnt(t, i)} cnt(t, i) >= 0
  inv np(i $i) @Create: forall t string :: {pcnt(t, i)} 0 <= pcnt(t, i) && pcnt(t, i) <= cnt(t, i)
  inv ent(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> ts[t] != nil && existed(ts[t]) == false && live(ts[t])
  inv enn(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> ts[t].Name == t
  inv enc(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> len(ts[t].Columns) == cnt(t, i)
  inv enp(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> len(ts[t].PrimaryKeys) == pcnt(t, i)
  inv mono(i $i) @Create: forall j int :: {cqMy[j]} 0 <= j < i ==> 0 <= cnt(cqMy[j].TableName, j) < cnt(cqMy[j].TableName, i)
  inv monp(i $i) @Create: forall j int :: {cqMy[j]} 0 <= j < i && cqMy[j].ColumnKey == "PRI" ==> 0 <= pcnt(cqMy[j].TableName, j) < pcnt(cqMy[j].TableName, i)
  inv col(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {cqMy[j]} 0 <= j < i ==> cqMy[j].TableName in ts && ts[cqMy[j].TableName].Columns[cnt(cqMy[j].TableName, j)] != nil
      && ts[cqMy[j].TableName].Columns[cnt(cqMy[j].TableName, j)].Name == cqMy[j].ColumnName
  inv key(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {cqMy[j]} 0 <= j < i && cqMy[j].ColumnKey == "PRI" ==> ts[cqMy[j].TableName].PrimaryKeys[pcnt(cqMy[j].TableName, j)] == cqMy[j].ColumnName
  inv rl(i $i, res []*dparser.TableSchema) @Create: len(res) == i
  inv re(i $i, res []*dparser.TableSchema, ts map[string]*dparser.TableSchema) @Create: forall k int :: {res[k]} {tables[k]} 0 <= k < i ==> (tables[k] in ts ==> res[k] == ts[tables[k]]) && (!(tables[k] in ts) ==> res[k] == nil)
  inv ok(i $i, schemas []*dparser.TableSchema) @Collect: forall k int :: {tables[k]} {schemas[k]} 0 <= k < i ==> schemas[k] != nil

ghost cqPg []*postgres.ColumnInfo
func infra/postgres.DB.GetTableColumns(db, database, tables) (res, err)
  prop P18
  trusted catalog query; its rows are arbitrary
  modifies cqN cqDb cqTables bad
  set cqN = cqN + 1
  set cqDb = database
  set cqTables = tables
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: cqN == old(cqN) + 1 && cqDb == database && cqTables == tables
  assumes rows: err == nil ==> res == cqPg
  assumes wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil
  assumes e: (err != nil) <==> cqErr

func database/postgres/pservice/parser.CollectTableSchemas(db, dbName, tables) (res, err)
  prop P07 P18
  lean P18
  main P07
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: cqN == 0
  rec cnt(t string, n int) int = n <= 0 ? 0 : cnt(t, n - 1) + (cqPg[n-1].TableName == t ? 1 : 0)
  rec pcnt(t string, n int) int = n <= 0 ? 0 : pcnt(t, n - 1) + (cqPg[n-1].TableName == t && cqPg[n-1].IsPK ? 1 : 0)
  ensures asked: cqN == 1 && cqDb == dbName && cqTables == tables
  ensures fails: err != nil <==> (cqErr || (exists k int :: {tables[k]} 0 <= k < len(tables) && cnt(tables[k], len(cqPg)) == 0))
  ensures entries: err == nil ==> len(res) == len(tables) && (forall k int :: {res[k]} {tables[k]} 0 <= k < len(tables) ==> res[k] != nil && res[k].Name == tables[k]
      && len(res[k].Columns) == cnt(tables[k], len(cqPg)) && len(res[k].PrimaryKeys) == pcnt(tables[k], len(cqPg)))
  ensures column: err == nil ==> forall j int, k int :: {cqPg[j], res[k]} 0 <= j < len(cqPg) && 0 <= k < len(res) && tables[k] == cqPg[j].TableName ==>
      0 <= cnt(cqPg[j].TableName, j) < len(res[k].Columns) && res[k].Columns[cnt(cqPg[j].TableName, j)] != nil && res[k].Columns[cnt(cqPg[j].TableName, j)].Name == cqPg[j].ColumnName
  ensures key: err == nil ==> forall j int, k int :: {cqPg[j], res[k]} 0 <= j < len(cqPg) && 0 <= k < len(res) && tables[k] == cqPg[j].TableName && cqPg[j].IsPK ==>
      0 <= pcnt(cqPg[j].TableName, j) < len(res[k].PrimaryKeys) && res[k].PrimaryKeys[pcnt(cqPg[j].TableName, j)] == cqPg[j].ColumnName
  inv dom(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {cnt(t, i)} t in ts <==> cnt(t, i) > 0
  inv nn(i $i) @Create: forall t string :: {cnt(t, i)} cnt(t, i) >= 0
  inv np(i $i) @Create: forall t string :: {pcnt(t, i)} 0 <= pcnt(t, i) && pcnt(t, i) <= cnt(t, i)
  inv ent(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> ts[t] != nil && existed(ts[t]) == false && live(ts[t])
  inv enn(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> ts[t].Name == t
  inv enc(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> len(ts[t].Columns) == cnt(t, i)
  inv enp(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> len(ts[t].PrimaryKeys) == pcnt(t, i)
  inv mono(i $i) @Create: forall j int :: {cqPg[j]} 0 <= j < i ==> 0 <= cnt(cqPg[j].TableName, j) < cnt(cqPg[j].TableName, i)
  inv monp(i $i) @Create: forall j int :: {cqPg[j]} 0 <= j < i && cqPg[j].IsPK ==> 0 <= pcnt(cqPg[j].TableName, j) < pcnt(cqPg[j].TableName, i)
  inv col(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {cqPg[j]} 0 <= j < i ==> cqPg[j].TableName in ts && ts[cqPg[j].TableName].Columns[cnt(cqPg[j].TableName, j)] != nil
      && ts[cqPg[j].TableName].Columns[cnt(cqPg[j].TableName, j)].Name == cqPg[j].ColumnName
  inv key(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {cqPg[j]} 0 <= j < i && cqPg[j].IsPK ==> ts[cqPg[j].TableName].PrimaryKeys[pcnt(cqPg[j].TableName, j)] == cqPg[j].ColumnName
  inv rl(i $i, res []*dparser.TableSchema) @Create: len(res) == i
  inv re(i $i, res []*dparser.TableSchema, ts map[string]*dparser.TableSchema) @Create: forall k int :: {res[k]} {tables[k]} 0 <= k < i ==> (tables[k] in ts ==> res[k] == ts[tables[k]]) && (!(tables[k] in ts) ==> res[k] == nil)
  inv ok(i $i, schemas []*dparser.TableSchema) @Collect: forall k int :: {tables[k]} {schemas[k]} 0 <= k < i ==> schemas[k] != nil

ghost cqHa []*infra/hasura.ColumnInfo
func infra/hasura.Client.GetTableColumns(db, database, tables) (res, err)
  prop P18 P20
  trusted catalog query; its rows are arbitrary
  modifies cqN cqDb cqTables bad nSql sqlText sqlRO sqlRes
  set cqN = cqN + 1
  set cqDb = database
  set cqTables = tables
  set bad = bad || err != nil
  requires url [P18, P20]: db.baseURL != nil
  ensures surf: bad <==> old(bad) || err != nil
  ensures log: cqN == old(cqN) + 1 && cqDb == database && cqTables == tables
  ensures rejected [P20]: !(hword(database) && hwords(tables)) ==> err != nil && nSql == old(nSql)
  ensures sent [P20]: hword(database) && hwords(tables) ==> nSql == old(nSql) + 1 && sqlRO[old(nSql)]
     && quotedIn(sqlText[old(nSql)], database, strings_Join(seq(k, len(tables), "'" + tables[k] + "'"), ","))
  ensures each [P20]: err == nil ==> len(res) == entries(len(typed(sqlRes, "*infra/hasura.RunSQLResponse").Result)) && (forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil
     && res[k].TableName == typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][0] && res[k].ColumnName == typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][1] && (res[k].IsPK <==> typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][2] == "t"))
  assumes rows: err == nil ==> res == cqHa
  ensures wf: err == nil ==> forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil
  assumes e: (err != nil) <==> cqErr

func database/hasura/hservice/parser.CollectTableSchemas(db, dbName, tables) (res, err)
  prop P07 P18
  lean P18
  main P07
  set bad = bad || err != nil
  requires url [P18, P20]: db.baseURL != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: cqN == 0
  rec cnt(t string, n int) int = n <= 0 ? 0 : cnt(t, n - 1) + (cqHa[n-1].TableName == t ? 1 : 0)
  rec pcnt(t string, n int) int = n <= 0 ? 0 : pcnt(t, n - 1) + (cqHa[n-1].TableName == t && cqHa[n-1].IsPK ? 1 : 0)
  ensures asked: cqN == 1 && cqDb == dbName && cqTables == tables
  ensures fails: err != nil <==> (cqErr || (exists k int :: {tables[k]} 0 <= k < len(tables) && cnt(tables[k], len(cqHa)) == 0))
  ensures entries: err == nil ==> len(res) == len(tables) && (forall k int :: {res[k]} {tables[k]} 0 <= k < len(tables) ==> res[k] != nil && res[k].Name == tables[k]
      && len(res[k].Columns) == cnt(tables[k], len(cqHa)) && len(res[k].PrimaryKeys) == pcnt(tables[k], len(cqHa)))
  ensures column: err == nil ==> forall j int, k int :: {cqHa[j], res[k]} 0 <= j < len(cqHa) && 0 <= k < len(res) && tables[k] == cqHa[j].TableName ==>
      0 <= cnt(cqHa[j].TableName, j) < len(res[k].Columns) && res[k].Columns[cnt(cqHa[j].TableName, j)] != nil && res[k].Columns[cnt(cqHa[j].TableName, j)].Name == cqHa[j].ColumnName
  ensures key: err == nil ==> forall j int, k int :: {cqHa[j], res[k]} 0 <= j < len(cqHa) && 0 <= k < len(res) && tables[k] == cqHa[j].TableName && cqHa[j].IsPK ==>
      0 <= pcnt(cqHa[j].TableName, j) < len(res[k].PrimaryKeys) && res[k].PrimaryKeys[pcnt(cqHa[j].TableName, j)] == cqHa[j].ColumnName
  inv dom(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {cnt(t, i)} t in ts <==> cnt(t, i) > 0
  inv nn(i $i) @Create: forall t string :: {cnt(t, i)} cnt(t, i) >= 0
  inv np(i $i) @Create: forall t string :: {pcnt(t, i)} 0 <= pcnt(t, i) && pcnt(t, i) <= cnt(t, i)
  inv ent(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> ts[t] != nil && existed(ts[t]) == false && live(ts[t])
  inv enn(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> ts[t].Name == t
  inv enc(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> len(ts[t].Columns) == cnt(t, i)
  inv enp(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {t in ts} {ts[t]} t in ts ==> len(ts[t].PrimaryKeys) == pcnt(t, i)
  inv mono(i $i) @Create: forall j int :: {cqHa[j]} 0 <= j < i ==> 0 <= cnt(cqHa[j].TableName, j) < cnt(cqHa[j].TableName, i)
  inv monp(i $i) @Create: forall j int :: {cqHa[j]} 0 <= j < i && cqHa[j].IsPK ==> 0 <= pcnt(cqHa[j].TableName, j) < pcnt(cqHa[j].TableName, i)
  inv col(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {cqHa[j]} 0 <= j < i ==> cqHa[j].TableName in ts && ts[cqHa[j].TableName].Columns[cnt(cqHa[j].TableName, j)] != nil
      && ts[cqHa[j].TableName].Columns[cnt(cqHa[j].TableName, j)].Name == cqHa[j].ColumnName
  inv key(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {cqHa[j]} 0 <= j < i && cqHa[j].IsPK ==> ts[cqHa[j].TableName].PrimaryKeys[pcnt(cqHa[j].TableName, j)] == cqHa[j].ColumnName
  inv rl(i $i, res []*dparser.TableSchema) @Create: len(res) == i
  inv re(i $i, res []*dparser.TableSchema, ts map[string]*dparser.TableSchema) @Create: forall k int :: {res[k]} {tables[k]} 0 <= k < i ==> (tables[k] in ts ==> res[k] == ts[tables[k]]) && (!(tables[k] in ts) ==> res[k] == nil)
  inv ok(i $i, schemas []*dparser.TableSchema) @Collect: forall k int :: {tables[k]} {schemas[k]} 0 <= k < i ==> schemas[k] != nil
