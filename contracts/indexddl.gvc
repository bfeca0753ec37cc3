// SQL text handed to the database driver / Hasura, in order.
ghost nSql int
ghost sqlText [int]string

func database/sql.DB.Exec(db, query, args) (r, err)
  trusted the driver sends the given text
  modifies nSql sqlText bad
  ensures b: bad <==> old(bad) || err != nil
  ensures log: nSql == old(nSql) + 1 && sqlText == store(old(sqlText), old(nSql), query)

ghost sqlRO [int]bool
ghost sqlRes ref
func infra/hasura.Client.RunSQL(c, args) (res, err)
  prop P18
  trusted HTTP boundary of Hasura's run_sql
  modifies nSql sqlText sqlRO sqlRes bad
  set nSql = nSql + 1
  set sqlText = store(sqlText, nSql - 1, args.SQL)
  set sqlRO = store(sqlRO, nSql - 1, args.ReadOnly != nil && deref(args.ReadOnly))
  set sqlRes = res
  requires args: args != nil
  requires url [P18]: c.baseURL != nil
  ensures log: nSql == old(nSql) + 1 && sqlText == store(old(sqlText), old(nSql), args.SQL)
  ensures ro: sqlRO == store(old(sqlRO), old(nSql), args.ReadOnly != nil && deref(args.ReadOnly))
  ensures res: sqlRes == res && (err == nil ==> res != nil)
  set bad = bad || err != nil
  ensures surf: bad <==> old(bad) || err != nil

pure safe(s string) string = re_repl("\\W", s, "_")
pure one(q string, on int, ot [int]string, nn int, nt [int]string) bool = nn == on + 1 && nt == store(ot, on, q)

func database/mysql/mservice.IndexExaminer.CreateIndex(ie, name, it) (err)
  prop P02 P18
  lean P18
  main P02
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures text: one("ALTER TABLE `" + it.TableName + "` ADD INDEX `" + name + "` (" +
      strings_Join(seq(k, len(it.Columns), "`" + safe(it.Columns[k].Name) + "`"), ",") + ")", old(nSql), old(sqlText), nSql, sqlText)
  inv rl(i $i, r []string): len(r) == i
  inv re(i $i, r []string): forall k int :: {r[k]} 0 <= k < i ==> r[k] == "`" + safe(it.Columns[k].Name) + "`"

func database/mysql/mservice.IndexExaminer.DropIndex(ie, name, it) (err)
  prop P02 P18
  lean P18
  main P02
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures text: one("ALTER TABLE `" + it.TableName + "` DROP INDEX `" + name + "`", old(nSql), old(sqlText), nSql, sqlText)

func database/postgres/pservice.IndexExaminer.CreateIndex(ie, name, it) (err)
  prop P02 P18
  lean P18
  main P02
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures text: one("CREATE INDEX \"" + name + "\" ON \"" + it.TableName + "\" (" +
      strings_Join(seq(k, len(it.Columns), "\"" + safe(it.Columns[k].Name) + "\""), ",") + ")", old(nSql), old(sqlText), nSql, sqlText)
  inv rl(i $i, r []string): len(r) == i
  inv re(i $i, r []string): forall k int :: {r[k]} 0 <= k < i ==> r[k] == "\"" + safe(it.Columns[k].Name) + "\""

func database/postgres/pservice.IndexExaminer.DropIndex(ie, name, it) (err)
  prop P02 P18
  lean P18
  main P02
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures text: one("DROP INDEX \"" + name + "\"", old(nSql), old(sqlText), nSql, sqlText)

func database/hasura/hservice.IndexExaminer.CreateIndex(ie, name, it) (err)
  prop P02 P18
  lean P18
  main P02
  set bad = bad || err != nil
  requires url [P18]: ie.cli.baseURL != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures text: one("CREATE INDEX \"" + name + "\" ON \"" + it.TableName + "\" (" +
      strings_Join(seq(k, len(it.Columns), "\"" + safe(it.Columns[k].Name) + "\""), ",") + ")", old(nSql), old(sqlText), nSql, sqlText)
  inv rl(i $i, r []string): len(r) == i
  inv re(i $i, r []string): forall k int :: {r[k]} 0 <= k < i ==> r[k] == "\"" + safe(it.Columns[k].Name) + "\""

func database/hasura/hservice.IndexExaminer.DropIndex(ie, name, it) (err)
  prop P02 P18
  lean P18
  main P02
  set bad = bad || err != nil
  requires url [P18]: ie.cli.baseURL != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures text: one("DROP INDEX \"" + name + "\"", old(nSql), old(sqlText), nSql, sqlText)

func database/dmodel.IndexTarget.IsSafe(it) (res)
  prop P02 P19
  main P02 P19
  ensures exact: res <==> re_match("\\A\\w+\\z", it.TableName) && (forall k int :: {it.Columns[k]} 0 <= k < len(it.Columns) ==> it.Columns[k].Name == safe(it.Columns[k].Name))
  inv pre(i $i): forall k int :: {it.Columns[k]} 0 <= k < i ==> it.Columns[k].Name == safe(it.Columns[k].Name)
