// Catalog lookups through Hasura.
axiom wq: forall s string :: {strings_Contains(s, "?")} re_match("\\A\\w+\\z", s) ==> !strings_Contains(s, "?")
pure entries(n int) int = n <= 1 ? 0 : n - 1
pure hword(s string) bool = re_match("\\A\\w+\\z", s)
pure hwords(ts []string) bool = forall k int :: {ts[k]} 0 <= k < len(ts) ==> hword(ts[k])
// fixed text with the two names between single quotes: the first piece of fixed
// text ends inside a quotation, the second one closes it
pure quotedIn(q string, schema string, list string) bool = exists a string, b string, c string :: {lit_fixed(a), lit_fixed(b), lit_fixed(c)}
     lit_fixed(a) && lit_fixed(b) && lit_fixed(c) && lit_last(a) == 39 && lit_first(b) == 39
  && lit_quotes(a) % 2 == 1 && lit_quotes(b) % 2 == 1 && lit_quotes(c) % 2 == 0 && q == a + schema + b + list + c

func infra/hasura.buildColumnFetchQuery(schema, tables) (q, err)
  prop P20
  ensures rejects: err == nil <==> hword(schema) && hwords(tables)
  ensures text: err == nil ==> quotedIn(q, schema, strings_Join(seq(k, len(tables), "'" + tables[k] + "'"), ","))
  inv w(i $i): forall k int :: {tables[k]} 0 <= k < i ==> hword(tables[k])
  inv rl(i $i, r []string): len(r) == i
  inv re(i $i, r []string): forall k int :: {r[k]} 0 <= k < i ==> r[k] == "'" + tables[k] + "'"

func infra/hasura.buildIndexFetchQuery(schema, tables) (q, err)
  prop P20
  ensures rejects: err == nil <==> hword(schema) && hwords(tables)
  ensures text: err == nil ==> quotedIn(q, schema, strings_Join(seq(k, len(tables), "'" + tables[k] + "'"), ","))
  inv w(i $i): forall k int :: {tables[k]} 0 <= k < i ==> hword(tables[k])
  inv rl(i $i, r []string): len(r) == i
  inv re(i $i, r []string): forall k int :: {r[k]} 0 <= k < i ==> r[k] == "'" + tables[k] + "'"



func infra/hasura.parseColumnFetchResult(res) (cols)
  prop P20
  requires nn: res != nil
  ensures count: len(cols) == entries(len(res.Result))
  ensures each: forall k int :: {cols[k]} 0 <= k < len(cols) ==> cols[k] != nil && cols[k].TableName == res.Result[k + 1][0] && cols[k].ColumnName == res.Result[k + 1][1] && (cols[k].IsPK <==> res.Result[k + 1][2] == "t")
  inv n(i $i, cols []*hasura.ColumnInfo): len(cols) == entries(i)
  inv e(i $i, cols []*hasura.ColumnInfo): forall k int :: {cols[k]} 0 <= k < len(cols) ==> live(cols[k]) && cols[k] != nil && cols[k].TableName == res.Result[k + 1][0] && cols[k].ColumnName == res.Result[k + 1][1] && (cols[k].IsPK <==> res.Result[k + 1][2] == "t")

func infra/hasura.parseIndexFetchResult(res) (infos, err)
  prop P20
  requires nn: res != nil
  ensures fails: err == nil <==> (forall k int :: {res.Result[k]} 1 <= k < len(res.Result) ==> pq_array_ok(res.Result[k][1]))
  ensures count: err == nil ==> len(infos) == entries(len(res.Result))
  ensures each: err == nil ==> forall k int :: {infos[k]} 0 <= k < len(infos) ==> infos[k] != nil && infos[k].TableName == res.Result[k + 1][0] && infos[k].Columns == pq_array(res.Result[k + 1][1])
  inv n(i $i, infos []*hasura.IndexInfo): len(infos) == entries(i)
  inv ok(i $i): forall k int :: {res.Result[k]} 1 <= k < i ==> pq_array_ok(res.Result[k][1])
  inv e(i $i, infos []*hasura.IndexInfo): forall k int :: {infos[k]} 0 <= k < len(infos) ==> live(infos[k]) && infos[k] != nil && infos[k].TableName == res.Result[k + 1][0] && infos[k].Columns == pq_array(res.Result[k + 1][1])
