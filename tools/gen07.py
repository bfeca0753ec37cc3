D=[('mysql','infra/mysql.DB.GetTableColumns','mysql.ColumnInfo','database/mysql/mservice/parser','cqMy','rows[n-1].ColumnKey == "PRI"','rows[j].ColumnKey == "PRI"'),
('postgres','infra/postgres.DB.GetTableColumns','postgres.ColumnInfo','database/postgres/pservice/parser','cqPg','rows[n-1].IsPK','rows[j].IsPK'),
('hasura','infra/hasura.Client.GetTableColumns','infra/hasura.ColumnInfo','database/hasura/hservice/parser','cqHa','rows[n-1].IsPK','rows[j].IsPK')]
HA='''  ensures rejected [P20]: !(hword(database) && hwords(tables)) ==> err != nil && nSql == old(nSql)
  ensures sent [P20]: hword(database) && hwords(tables) ==> nSql == old(nSql) + 1 && sqlRO[old(nSql)]
     && quotedIn(sqlText[old(nSql)], database, strings_Join(seq(k, len(tables), "'" + tables[k] + "'"), ","))
  ensures each [P20]: err == nil ==> len(res) == entries(len(typed(sqlRes, "*infra/hasura.RunSQLResponse").Result)) && (forall k int :: {res[k]} 0 <= k < len(res) ==> res[k] != nil
     && res[k].TableName == typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][0] && res[k].ColumnName == typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][1] && (res[k].IsPK <==> typed(sqlRes, "*infra/hasura.RunSQLResponse").Result[k + 1][2] == "t"))
'''
o='''// Table schemas from catalog rows (generated by tools/gen07.py: three dialects, one text)
ghost cqN int
ghost cqDb string
ghost cqTables []string
ghost cqErr bool
'''
for n,fn,ty,pk,g,p1,pj in D:
    ha = n == 'hasura'
    x = ' P20' if ha else ''
    m = ' nSql sqlText sqlRO sqlRes' if ha else ''
    u = 'requires url [P18, P20]: db.baseURL != nil\n  ' if ha else ''
    w = 'ensures' if ha else 'assumes'
    h = HA if ha else ''
    o+=f'''
ghost {g} []*{ty}
func {fn}(db, database, tables) (res, err)
  prop P18{x}
  trusted catalog query; its rows are arbitrary
  modifies cqN cqDb cqTables bad{m}
  set cqN = cqN + 1
  set cqDb = database
  set cqTables = tables
  set bad = bad || err != nil
  {u}ensures surf: bad <==> old(bad) || err != nil
  ensures log: cqN == old(cqN) + 1 && cqDb == database && cqTables == tables
{h}  assumes rows: err == nil ==> res == {g}
  {w} wf: err == nil ==> forall k int :: {{res[k]}} 0 <= k < len(res) ==> res[k] != nil
  assumes e: (err != nil) <==> cqErr

func {pk}.CollectTableSchemas(db, dbName, tables) (res, err)
  prop P07 P18
  lean P18
  main P07
  set bad = bad || err != nil
  {u}ensures surf [P18]: bad <==> old(bad) || err != nil
  requires start: cqN == 0
  rec cnt(t string, n int) int = n <= 0 ? 0 : cnt(t, n - 1) + (rows[n-1].TableName == t ? 1 : 0)
  rec pcnt(t string, n int) int = n <= 0 ? 0 : pcnt(t, n - 1) + (rows[n-1].TableName == t && {p1} ? 1 : 0)
  ensures asked: cqN == 1 && cqDb == dbName && cqTables == tables
  ensures fails: err != nil <==> (cqErr || (exists k int :: {{tables[k]}} 0 <= k < len(tables) && cnt(tables[k], len(rows)) == 0))
  ensures entries: err == nil ==> len(res) == len(tables) && (forall k int :: {{res[k]}} {{tables[k]}} 0 <= k < len(tables) ==> res[k] != nil && res[k].Name == tables[k]
      && len(res[k].Columns) == cnt(tables[k], len(rows)) && len(res[k].PrimaryKeys) == pcnt(tables[k], len(rows)))
  ensures column: err == nil ==> forall j int, k int :: {{rows[j], res[k]}} 0 <= j < len(rows) && 0 <= k < len(res) && tables[k] == rows[j].TableName ==>
      0 <= cnt(rows[j].TableName, j) < len(res[k].Columns) && res[k].Columns[cnt(rows[j].TableName, j)] != nil && res[k].Columns[cnt(rows[j].TableName, j)].Name == rows[j].ColumnName
  ensures key: err == nil ==> forall j int, k int :: {{rows[j], res[k]}} 0 <= j < len(rows) && 0 <= k < len(res) && tables[k] == rows[j].TableName && {pj} ==>
      0 <= pcnt(rows[j].TableName, j) < len(res[k].PrimaryKeys) && res[k].PrimaryKeys[pcnt(rows[j].TableName, j)] == rows[j].ColumnName
  inv dom(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {{t in ts}} {{cnt(t, i)}} t in ts <==> cnt(t, i) > 0
  inv nn(i $i) @Create: forall t string :: {{cnt(t, i)}} cnt(t, i) >= 0
  inv np(i $i) @Create: forall t string :: {{pcnt(t, i)}} 0 <= pcnt(t, i) && pcnt(t, i) <= cnt(t, i)
  inv ent(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {{t in ts}} {{ts[t]}} t in ts ==> ts[t] != nil && existed(ts[t]) == false && live(ts[t])
  inv enn(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {{t in ts}} {{ts[t]}} t in ts ==> ts[t].Name == t
  inv enc(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {{t in ts}} {{ts[t]}} t in ts ==> len(ts[t].Columns) == cnt(t, i)
  inv enp(i $i, ts map[string]*dparser.TableSchema) @Create: forall t string :: {{t in ts}} {{ts[t]}} t in ts ==> len(ts[t].PrimaryKeys) == pcnt(t, i)
  inv mono(i $i) @Create: forall j int :: {{rows[j]}} 0 <= j < i ==> 0 <= cnt(rows[j].TableName, j) < cnt(rows[j].TableName, i)
  inv monp(i $i) @Create: forall j int :: {{rows[j]}} 0 <= j < i && {pj} ==> 0 <= pcnt(rows[j].TableName, j) < pcnt(rows[j].TableName, i)
  inv col(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {{rows[j]}} 0 <= j < i ==> rows[j].TableName in ts && ts[rows[j].TableName].Columns[cnt(rows[j].TableName, j)] != nil
      && ts[rows[j].TableName].Columns[cnt(rows[j].TableName, j)].Name == rows[j].ColumnName
  inv key(i $i, ts map[string]*dparser.TableSchema) @Create: forall j int :: {{rows[j]}} 0 <= j < i && {pj} ==> ts[rows[j].TableName].PrimaryKeys[pcnt(rows[j].TableName, j)] == rows[j].ColumnName
  inv rl(i $i, res []*dparser.TableSchema) @Create: len(res) == i
  inv re(i $i, res []*dparser.TableSchema, ts map[string]*dparser.TableSchema) @Create: forall k int :: {{res[k]}} {{tables[k]}} 0 <= k < i ==> (tables[k] in ts ==> res[k] == ts[tables[k]]) && (!(tables[k] in ts) ==> res[k] == nil)
  inv ok(i $i, schemas []*dparser.TableSchema) @Collect: forall k int :: {{tables[k]}} {{schemas[k]}} 0 <= k < i ==> schemas[k] != nil
'''.replace('rows[',g+'[').replace('len(rows)',f'len({g})')
open('/verif/contracts/schemas.gvc','w').write(o)
