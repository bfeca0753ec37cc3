// Resolution of the columns of a statement.
pure firstNamed(cols []*dparser.outputCol, k int, name string) bool =
   0 <= k < len(cols) && cols[k].name == name && (forall m int :: {cols[m]} 0 <= m < k ==> cols[m].name != name)

func database/dservice/dparser.refTables.getTableColsFromName(t, name) (res, err)
  prop P08
  main P08
  frame
  ensures in: name in t.internalCols ==> err == nil && res == t.internalCols[name]
  ensures ext: !(name in t.internalCols) && name in t.externalCols ==> err == nil && res == t.externalCols[name]
  ensures none: !(name in t.internalCols) && !(name in t.externalCols) ==> err != nil

func database/dservice/dparser.refTables.getTableColsFromAsName(t, asName) (res, err)
  prop P08
  main P08
  frame
  ensures none: !(asName in t.asToName) ==> err != nil
  ensures in: asName in t.asToName && t.asToName[asName] in t.internalCols ==> err == nil && res == t.internalCols[t.asToName[asName]]
  ensures ext: asName in t.asToName && !(t.asToName[asName] in t.internalCols) && t.asToName[asName] in t.externalCols ==> err == nil && res == t.externalCols[t.asToName[asName]]
  ensures lost: asName in t.asToName && !(t.asToName[asName] in t.internalCols) && !(t.asToName[asName] in t.externalCols) ==> err != nil

func database/dservice/dparser.refTables.getReferencingColumnInfos(t, c) (res, err)
  prop P08
  main P08
  frame
  requires nn: forall n string, k int :: {t.internalCols[n][k]} 0 <= k < len(t.internalCols[n]) ==> t.internalCols[n][k] != nil
  requires nx: forall n string, k int :: {t.externalCols[n][k]} 0 <= k < len(t.externalCols[n]) ==> t.externalCols[n][k] != nil
  ensures unknown: !(c.Table in t.asToName) ==> err != nil
  ensures in: err == nil && t.asToName[c.Table] in t.internalCols ==> exists k int :: {t.internalCols[t.asToName[c.Table]][k]} firstNamed(t.internalCols[t.asToName[c.Table]], k, c.Name) && res == t.internalCols[t.asToName[c.Table]][k].referencingColumns
  ensures ext: err == nil && !(t.asToName[c.Table] in t.internalCols) ==> exists k int :: {t.externalCols[t.asToName[c.Table]][k]} firstNamed(t.externalCols[t.asToName[c.Table]], k, c.Name) && res == t.externalCols[t.asToName[c.Table]][k].referencingColumns
  ensures found: c.Table in t.asToName && t.asToName[c.Table] in t.internalCols ==> forall k int :: {t.internalCols[t.asToName[c.Table]][k]} 0 <= k < len(t.internalCols[t.asToName[c.Table]]) && t.internalCols[t.asToName[c.Table]][k].name == c.Name ==> err == nil
  inv nf(i $i, fCols []*dparser.outputCol): forall m int :: {fCols[m]} 0 <= m < i ==> fCols[m].name != c.Name

func database/dservice/dparser.refTables.getColumnInfosFromTableOutputCols(t, tableOutputs, colName) (res, ok)
  prop P08
  main P08
  frame
  requires nn: forall n string, k int :: {tableOutputs[n][k]} n in tableOutputs && 0 <= k < len(tableOutputs[n]) ==> tableOutputs[n][k] != nil
  ensures some: ok ==> exists n string, k int :: {tableOutputs[n][k]} n in tableOutputs && 0 <= k < len(tableOutputs[n]) && tableOutputs[n][k].name == colName && res == tableOutputs[n][k].referencingColumns
  ensures none: !ok ==> forall n string, k int :: {tableOutputs[n][k]} n in tableOutputs && 0 <= k < len(tableOutputs[n]) ==> tableOutputs[n][k].name != colName
  inv seen(i $i): forall j int, k int :: {tableOutputs[$keys[j]][k]} 0 <= j < i && 0 <= k < len(tableOutputs[$keys[j]]) ==> tableOutputs[$keys[j]][k].name != colName
  inv nf(i $i, fCols []*dparser.outputCol): forall m int :: {fCols[m]} 0 <= m < i ==> fCols[m].name != colName

pure allNN(m map[string][]*dparser.outputCol) bool = forall n string, k int :: {m[n][k]} n in m && 0 <= k < len(m[n]) ==> m[n][k] != nil
pure hasCol(m map[string][]*dparser.outputCol, name string) bool = exists n string, k int :: {m[n][k]} n in m && 0 <= k < len(m[n]) && m[n][k].name == name
pure isColOf(m map[string][]*dparser.outputCol, name string, res []*dparser.columnInfo) bool = exists n string, k int :: {m[n][k]} n in m && 0 <= k < len(m[n]) && m[n][k].name == name && res == m[n][k].referencingColumns

func database/dservice/dparser.refTables.getColumnInfos(t, colName) (res, err)
  prop P08
  main P08
  frame
  requires nn: allNN(t.internalCols) && allNN(t.externalCols)
  ensures inner: err == nil && hasCol(t.internalCols, colName) ==> isColOf(t.internalCols, colName, res)
  ensures outer: err == nil && !hasCol(t.internalCols, colName) && hasCol(t.externalCols, colName) ==> isColOf(t.externalCols, colName, res)
  ensures guess: err == nil && !hasCol(t.internalCols, colName) && !hasCol(t.externalCols, colName) ==> len(res) == 0
  ensures found: hasCol(t.internalCols, colName) || hasCol(t.externalCols, colName) ==> err == nil

func database/dservice/dparser.scopeInfo.addReferencingField(si, tableName, col) ()
  prop P08
  main P08
  requires cnn: col != nil
  requires nn: forall k int :: {si.referencingFields[tableName][k]} 0 <= k < len(si.referencingFields[tableName]) ==> si.referencingFields[tableName][k] != nil
  requires once: forall j int, k int :: {si.referencingFields[tableName][j], si.referencingFields[tableName][k]} tableName in si.referencingFields && 0 <= j < k < len(si.referencingFields[tableName]) ==> si.referencingFields[tableName][j].Name != si.referencingFields[tableName][k].Name
  ensures others: forall t string :: {t in si.referencingFields} {si.referencingFields[t]} t != tableName ==> (t in si.referencingFields <==> old(t in si.referencingFields)) && si.referencingFields[t] == old(si.referencingFields[t])
  ensures there: tableName in si.referencingFields
  ensures fields: unchanged("dparser.FieldColumn", "Name") && unchanged("dparser.FieldColumn", "Type") && unchanged("dparser.FieldColumn", "Table")
  ensures grow: old(tableName in si.referencingFields) ==> len(si.referencingFields[tableName]) >= old(len(si.referencingFields[tableName]))
  ensures onceafter: forall j int, k int :: {si.referencingFields[tableName][j], si.referencingFields[tableName][k]} 0 <= j < k < len(si.referencingFields[tableName]) ==> si.referencingFields[tableName][j].Name != si.referencingFields[tableName][k].Name
  ensures kept: old(tableName in si.referencingFields) ==> forall k int :: {si.referencingFields[tableName][k]} 0 <= k < old(len(si.referencingFields[tableName])) ==>
      si.referencingFields[tableName][k].Name == old(si.referencingFields[tableName][k].Name)
      && si.referencingFields[tableName][k].Type == (old(si.referencingFields[tableName][k].Name) == col.Name && old(si.referencingFields[tableName][k].Type) == 0 && col.Type == 1 ? 1 : old(si.referencingFields[tableName][k].Type))
  ensures added: exists k int :: {si.referencingFields[tableName][k]} 0 <= k < len(si.referencingFields[tableName]) && si.referencingFields[tableName][k].Name == col.Name && (col.Type == 1 ==> si.referencingFields[tableName][k].Type != 0)
  ensures onlynew: old(tableName in si.referencingFields) ==> forall k int :: {si.referencingFields[tableName][k]} old(len(si.referencingFields[tableName])) <= k < len(si.referencingFields[tableName]) ==> si.referencingFields[tableName][k] == col
  ensures onlyone: !old(tableName in si.referencingFields) ==> len(si.referencingFields[tableName]) == 1 && si.referencingFields[tableName][0] == col
  inv nf(i $i, cols []*dparser.FieldColumn): forall m int :: {cols[m]} 0 <= m < i ==> cols[m].Name != col.Name

func database/dservice/dparser.buildReferencingColumns(dbTables, tables) (res)
  prop P08
  main P08
  requires nn: forall k int :: {tables[k]} 0 <= k < len(tables) ==> tables[k] != nil
  requires ns: forall n string :: {dbTables[n]} n in dbTables ==> dbTables[n] != nil && (forall k int :: {dbTables[n].Columns[k]} 0 <= k < len(dbTables[n].Columns) ==> dbTables[n].Columns[k] != nil)
  ensures known: forall n string, k int :: {res[n][k]} n in res && 0 <= k < len(res[n]) ==> n in dbTables && res[n][k] != nil && len(res[n][k].referencingColumns) == 1
      && res[n][k].referencingColumns[0] != nil && res[n][k].referencingColumns[0].tableName == n && res[n][k].referencingColumns[0].name == res[n][k].name
      && (exists m int :: {dbTables[n].Columns[m]} 0 <= m < len(dbTables[n].Columns) && dbTables[n].Columns[m].Name == res[n][k].name)
  inv known(res dparser.tableOutputCols): forall n string, k int :: {res[n][k]} n in res && 0 <= k < len(res[n]) ==> n in dbTables && res[n][k] != nil && len(res[n][k].referencingColumns) == 1
      && res[n][k].referencingColumns[0] != nil && res[n][k].referencingColumns[0].tableName == n && res[n][k].referencingColumns[0].name == res[n][k].name
      && (exists m int :: {dbTables[n].Columns[m]} 0 <= m < len(dbTables[n].Columns) && dbTables[n].Columns[m].Name == res[n][k].name)
  inv lv(res dparser.tableOutputCols): forall n string, k int :: {res[n][k]} n in res && 0 <= k < len(res[n]) ==> live(res[n][k]) && live(res[n][k].referencingColumns[0]) && !existed(res[n][k]) && !existed(res[n][k].referencingColumns[0])
