// Reading of --index arguments.
// wellformed: word ":" word ("+" word)*
pure wellformed(s string) bool = re_match("\\A\\w+:\\w+(\\+\\w+)*\\z", s)
pure word(s string) bool = re_match("\\A\\w+\\z", s)
pure wordlist(s string) bool = re_match("\\A\\w+(\\+\\w+)*\\z", s)
pure argtable(s string) string      // text before the colon
pure argcols(s string) string       // text after the colon

// facts about the regular languages and about strings.Split
axiom wf_match: forall s string :: {wellformed(s)} wellformed(s) ==> re_match("\\A(.+?):((.+?(\\+)?)+)\\z", s)
axiom rx_parts: forall s string :: {re_match("\\A(.+?):((.+?(\\+)?)+)\\z", s)} re_match("\\A(.+?):((.+?(\\+)?)+)\\z", s)
   ==> s == re_sub("\\A(.+?):((.+?(\\+)?)+)\\z", s, 1) + ":" + re_sub("\\A(.+?):((.+?(\\+)?)+)\\z", s, 2)
   && (wellformed(s) <==> word(re_sub("\\A(.+?):((.+?(\\+)?)+)\\z", s, 1)) && wordlist(re_sub("\\A(.+?):((.+?(\\+)?)+)\\z", s, 2)))
   && (wellformed(s) ==> argtable(s) == re_sub("\\A(.+?):((.+?(\\+)?)+)\\z", s, 1) && argcols(s) == re_sub("\\A(.+?):((.+?(\\+)?)+)\\z", s, 2))
axiom split_words: forall s string :: {strings_Split(s, "+")} wordlist(s) <==> (forall k int :: {strings_Split(s, "+")[k]} 0 <= k < len(strings_Split(s, "+")) ==> word(strings_Split(s, "+")[k]))
axiom split_len: forall s string :: {strings_Split(s, "+")} len(strings_Split(s, "+")) >= 1

pure reads(table string, cols []*dmodel.IndexColumn, s string) bool = table == argtable(s) && len(cols) == len(strings_Split(argcols(s), "+"))
   && (forall k int :: {cols[k]} 0 <= k < len(cols) ==> cols[k] != nil && cols[k].Name == strings_Split(argcols(s), "+")[k])

func database/dmodel.NewIndexTargetFromText(text) (it, err)
  prop P03
  main P03
  frame
  ensures accept: err == nil <==> wellformed(text)
  ensures exact: err == nil ==> it != nil && fresh(it) && reads(it.TableName, it.Columns, text)
  inv cl(i $i, it *dmodel.IndexTarget): len(it.Columns) == i
  inv tn(it *dmodel.IndexTarget): it.TableName == entry(it.TableName)
  inv ce(i $i, it *dmodel.IndexTarget, _cs []string): forall k int :: {it.Columns[k]} 0 <= k < i ==> it.Columns[k] != nil && it.Columns[k].Name == _cs[k] && word(_cs[k])

func database/dmodel.NewIndexTargetsFromTexts(texts) (its, err)
  prop P03 P18
  lean P18
  main P03
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  ensures accept: err == nil <==> (forall k int :: {texts[k]} 0 <= k < len(texts) ==> wellformed(texts[k]))
  ensures count: err == nil ==> len(its) == len(texts)
  ensures each: err == nil ==> forall k int :: {its[k]} 0 <= k < len(its) ==> its[k] != nil && reads(its[k].TableName, its[k].Columns, texts[k])
  inv l(i $i, its []*dmodel.IndexTarget): len(its) == i
  inv ok(i $i): forall k int :: {texts[k]} 0 <= k < i ==> wellformed(texts[k])
  inv e(i $i, its []*dmodel.IndexTarget): forall k int :: {its[k]} 0 <= k < i ==> its[k] != nil && reads(its[k].TableName, its[k].Columns, texts[k])
