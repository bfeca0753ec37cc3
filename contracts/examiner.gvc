// The examination side of the database, as seen by the examiner.
ghost live bool              // a temporary index is in place
ghost liveName string
ghost liveTarget ref
ghost nEx int                // number of measurements so far
ghost exLive [int]bool       // index in place at measurement k
ghost exTarget [int]ref
ghost exTime [int]mint
ghost nRun int
ghost ranOn []*dmodel.IndexTarget
ghost ranRes ref
ghost failed bool            // some step reported an error

// every character is a word character
pure wordstr(s string) bool
axiom w_lit: wordstr("_")
axiom w_cat: forall a string, b string :: {wordstr(a + b)} wordstr(a) && wordstr(b) ==> wordstr(a + b)
axiom w_sub: forall a string, i int, j int :: {wordstr(str_sub(a, i, j))} wordstr(a) ==> wordstr(str_sub(a, i, j))
axiom w_num: forall n int :: {itoa(n, 10)} n >= 0 ==> wordstr(itoa(n, 10))
axiom w_numlen: forall n int :: {itoa(n, 10)} 0 <= n < 1000000000 ==> len(itoa(n, 10)) <= 9
axiom w_repl: forall a string :: {re_repl("\\W", a, "_")} wordstr(re_repl("\\W", a, "_"))
axiom w_join: forall s []string, p string :: {strings_Join(s, p)} wordstr(p) && (forall k int :: {s[k]} 0 <= k < len(s) ==> wordstr(s[k])) ==> wordstr(strings_Join(s, p))

method database/dservice.IndexExaminer.Execute(ie) (ms, err)
  modifies nEx exLive exTarget exTime failed bad
  ensures log: nEx == old(nEx) + 1 && exLive == store(old(exLive), old(nEx), live)
     && exTarget == store(old(exTarget), old(nEx), liveTarget) && exTime == store(old(exTime), old(nEx), ms)
  ensures b: bad <==> old(bad) || err != nil
  ensures flag: failed == (old(failed) || err != nil)

method database/dservice.IndexExaminer.CreateIndex(ie, name, it) (err)
  modifies live liveName liveTarget failed bad
  requires none_in_place [P01]: !live
  requires name_words [P02]: wordstr(name)
  requires name_short [P02]: len(name) <= 63
  ensures created: err == nil ==> live && liveName == name && liveTarget == it
  ensures notcreated: err != nil ==> !live
  ensures b: bad <==> old(bad) || err != nil
  ensures flag: failed == (old(failed) || err != nil)

method database/dservice.IndexExaminer.DropIndex(ie, name, it) (err)
  modifies live failed bad
  requires drops_created [P01]: live && liveName == name && liveTarget == it
  ensures dropped: !live
  ensures b: bad <==> old(bad) || err != nil
  ensures flag: failed == (old(failed) || err != nil)

func database/dservice.IndexEfficiencyExaminer.Run(iee, its) (res, err)
  prop P01 P02 P04 P18
  lean P18
  main P01 P02 P04 P19
  set bad = bad || err != nil
  ensures surf [P18]: bad <==> old(bad) || err != nil
  set nRun = nRun + 1
  set ranOn = its
  set ranRes = res
  ensures ran [P01, P02, P04, P18, P19]: nRun == old(nRun) + 1 && ranOn == its && ranRes == res
  requires start: !live && !failed && nEx == 0
  requires wf: forall k int :: {its[k]} 0 <= k < len(its) ==> its[k] != nil
  ensures cleaned [P01]: !live
  ensures surfaced [P01]: err == nil ==> !failed
  ensures measured [P04]: err == nil ==> nEx == 1 + len(its) && !exLive[0]
  ensures own_index [P04]: err == nil ==> forall k int :: {its[k]} 0 <= k < len(its) ==> exLive[k+1] && exTarget[k+1] == its[k]
  ensures original [P04]: err == nil ==> res != nil && res.OriginalTimeMillis == exTime[0] && len(res.IndexResults) == len(its)
  ensures results [P04]: err == nil ==> forall k int :: {res.IndexResults[k]} 0 <= k < len(its) ==>
     res.IndexResults[k] != nil && res.IndexResults[k].IndexTarget == its[k] && res.IndexResults[k].ExecutionTimeMillis == exTime[k+1]
  inv nobad() [P18]: bad == entry(bad)
  inv first(): nEx >= 1 && exTime[0] == entry(exTime[0])
  inv clean(): !live && !failed
  inv count(i $i): nEx == 1 + i && !exLive[0]
  inv own(i $i): forall k int :: {its[k]} 0 <= k < i ==> exLive[k+1] && exTarget[k+1] == its[k]
  inv rl(i $i, irs []*dmodel.ExaminationIndexResult): len(irs) == i
  inv rs(i $i, irs []*dmodel.ExaminationIndexResult): forall k int :: {irs[k]} 0 <= k < i ==>
     irs[k] != nil && irs[k].IndexTarget == its[k] && irs[k].ExecutionTimeMillis == exTime[k+1]
  inv words(i $i, r []string): forall k int :: {r[k]} 0 <= k < len(r) ==> wordstr(r[k])
