// Enumeration of index candidates.
// fcq is an arbitrary sequence of columns: completeness is proved for each of its prefixes.
ghost fcq []*dparser.FieldColumn
// cn names the column of a table by its name (names are unique per table, see P08)
pure cn(n string) *dparser.FieldColumn
pure mk(n int, m int) bool
axiom mk_true: forall n int, m int :: {mk(n, m)} mk(n, m)

// fqi is an arbitrary function; with it as inverse of fcq, sel says the columns are distinct
pure fqi(x *dparser.FieldColumn) int
pure fof(s []*dparser.FieldColumn, x *dparser.FieldColumn) int
axiom fof_def: forall s []*dparser.FieldColumn, k int :: {s[k], fof(s, s[k])} 0 <= k < len(s) ==> 0 <= fof(s, s[k]) && fof(s, s[k]) <= k && s[fof(s, s[k])] == s[k]
pure usable(t int) bool = t == 0 || t == 1

// composition r spells columns of s, no column twice
pure spells(r []*dparser.IndexField, s map[*dparser.FieldColumn]bool) bool = len(r) >= 1
   && (forall p int :: {r[p]} 0 <= p < len(r) ==> r[p] != nil && cn(r[p].Name) in s && cn(r[p].Name).Name == r[p].Name && r[p].Type == cn(r[p].Name).Type && usable(r[p].Type))
   && (forall p int, q int :: {r[p], r[q]} 0 <= p < q && q < len(r) ==> r[p].Name != r[q].Name)
// the first n columns of fcq are a selection from s
pure sel(n int, s map[*dparser.FieldColumn]bool) bool = 1 <= n <= len(fcq) && fcq[n-1] in s
   && (forall p int :: {fcq[p]} 0 <= p < n ==> fcq[p] in s && usable(fcq[p].Type) && fqi(fcq[p]) == p)
pure isq(r []*dparser.IndexField, n int) bool = len(r) == n && (forall p int :: {r[p]} {fcq[p]} 0 <= p < n ==> r[p].Name == fcq[p].Name && r[p].Type == fcq[p].Type)

pure ext(r []*dparser.IndexField, r0 []*dparser.IndexField, fc *dparser.FieldColumn) bool = len(r) == len(r0) + 1
   && (forall p int :: {r[p]} {r0[p]} 0 <= p < len(r0) ==> r[p] == r0[p])
   && r[len(r0)] != nil && r[len(r0)].Name == fc.Name && r[len(r0)].Type == fc.Type

func database/dservice/dparser.IndexTargetBuilder.compositeFieldColumns(itb, fColumns) (res)
  prop P06
  elsewhere P18
  main P06
  frame
  requires wf: forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals ==> x != nil && cn(x.Name) == x && fColumns.vals[x]
  ensures same: forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals <==> old(x in fColumns.vals)
  ensures size: len(fColumns.vals) == old(len(fColumns.vals))
  ensures sound: forall k int :: {res[k]} 0 <= k < len(res) ==> spells(res[k], fColumns.vals)
  ensures complete: forall n int :: {mk(n, old(len(fColumns.vals)))} mk(n, old(len(fColumns.vals))) && sel(n, fColumns.vals) ==> exists k int :: {res[k]} 0 <= k < len(res) && isq(res[k], n)
  inv vl(i $i, vals []*dparser.FieldColumn) @Values: len(vals) == i
  inv vk(i $i, vals []*dparser.FieldColumn) @Values: forall k int :: {vals[k]} {$keys[k]} 0 <= k < i ==> vals[k] == $keys[k]
  inv dom(): forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals <==> old(x in fColumns.vals)
  inv tru(): forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals ==> fColumns.vals[x]
  inv sz(): len(fColumns.vals) == old(len(fColumns.vals))
  inv s(compositions []dparser.index): forall k int :: {compositions[k]} 0 <= k < len(compositions) ==> spells(compositions[k], fColumns.vals)
  inv done(i $i, _vs []*dparser.FieldColumn, compositions []dparser.index) @composite: forall n int :: {mk(n, old(len(fColumns.vals)))} mk(n, old(len(fColumns.vals))) && mk(n-1, old(len(fColumns.vals))-1) && sel(n, fColumns.vals)
       && 0 <= fof(_vs, fcq[n-1]) < i && _vs[fof(_vs, fcq[n-1])] == fcq[n-1] ==>
       exists k int :: {compositions[k]} 0 <= k < len(compositions) && isq(compositions[k], n)
  // inner loop
  inv il(i $i, compositions []dparser.index): len(compositions) == entry(len(compositions)) + i
  inv ip(compositions []dparser.index): forall k int :: {compositions[k]} {entry(compositions)[k]} 0 <= k < entry(len(compositions)) ==> compositions[k] == entry(compositions)[k]
  inv ie(i $i, compositions []dparser.index, res2 []dparser.index, fc *dparser.FieldColumn): forall k int :: {res2[k]} 0 <= k < i ==> ext(compositions[entry(len(compositions)) + k], res2[k], fc)

// columns that are only read: trailing, ascending, and only in an index over all columns
pure eff(r []*dparser.IndexField, cnt int) bool = (forall a int :: {r[a]} 0 <= a < len(r) && r[a].Type == 0 ==> len(r) == cnt)
   && (forall a int, b int :: {r[a], r[b]} 0 <= a < b && b < len(r) && r[a].Type == 0 ==> r[b].Type == 0 && !(r[b].Name < r[b-1].Name))
pure foi(s []dparser.index, x dparser.index) int
axiom foi_def: forall s []dparser.index, k int :: {s[k], foi(s, s[k])} 0 <= k < len(s) ==> 0 <= foi(s, s[k]) && foi(s, s[k]) <= k && s[foi(s, s[k])] == s[k]
pure memi(s []dparser.index, x dparser.index) bool = 0 <= foi(s, x) && foi(s, x) < len(s) && s[foi(s, x)] == x

func database/dservice/dparser.IndexTargetBuilder.extractEfficientIndexes(itb, fColumns) (res)
  prop P06
  main P06
  frame
  requires wf: forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals ==> x != nil && cn(x.Name) == x && fColumns.vals[x]
  ensures same: forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals <==> old(x in fColumns.vals)
  ensures size: len(fColumns.vals) == old(len(fColumns.vals))
  ensures sound: forall k int :: {res[k]} 0 <= k < len(res) ==> spells(res[k], fColumns.vals) && eff(res[k], len(fColumns.vals))
  ensures complete: forall n int :: {mk(n, old(len(fColumns.vals)))} mk(n, old(len(fColumns.vals))) && sel(n, fColumns.vals) && effq(n, len(fColumns.vals)) ==> exists k int :: {res[k]} 0 <= k < len(res) && isq(res[k], n)
  inv s(efficientIndexFields []dparser.index): forall k int :: {efficientIndexFields[k]} 0 <= k < len(efficientIndexFields) ==> spells(efficientIndexFields[k], fColumns.vals) && eff(efficientIndexFields[k], len(fColumns.vals))
  inv c(i $i, compositions []dparser.index, efficientIndexFields []dparser.index): forall k int :: {compositions[k]} 0 <= k < i && eff(compositions[k], len(fColumns.vals)) ==> memi(efficientIndexFields, compositions[k])
  inv pre(i $i, fields dparser.index): forall a int :: {fields[a]} 0 <= a < i && fields[a].Type == 0 ==> len(fields) == len(fColumns.vals) && (forall b int :: {fields[b]} a < b && b < len(fields) ==> fields[b].Type == 0 && !(fields[b].Name < fields[b-1].Name))
  inv suf(j $i, i int, fields dparser.index): forall b int :: {fields[b]} i < b && b < j ==> fields[b].Type == 0 && !(fields[b].Name < fields[b-1].Name)

pure effq(n int, cnt int) bool = (forall a int :: {fcq[a]} 0 <= a < n && fcq[a].Type == 0 ==> n == cnt)
   && (forall a int, b int :: {fcq[a], fcq[b]} 0 <= a < b && b < n && fcq[a].Type == 0 ==> fcq[b].Type == 0 && !(fcq[b].Name < fcq[b-1].Name))

func database/dservice/dparser.IndexTargetBuilder.removePkOnlyFields(itb, pkCols, indexFieldList) (res)
  prop P06
  main P06
  frame
  requires wf: forall k int, p int :: {indexFieldList[k][p]} 0 <= k < len(indexFieldList) && 0 <= p < len(indexFieldList[k]) ==> indexFieldList[k][p] != nil
  ensures from: forall k int :: {res[k]} 0 <= k < len(res) ==> memi(indexFieldList, res[k]) && !allpk(res[k], pkCols)
  ensures complete: forall k int :: {indexFieldList[k]} 0 <= k < len(indexFieldList) && !allpk(indexFieldList[k], pkCols) ==> memi(res, indexFieldList[k])
  inv set1(i $i, vals map[string]bool) @NewSet: forall k int :: {pkCols[k]} 0 <= k < i ==> pkCols[k] in vals
  inv set2(i $i, vals map[string]bool) @NewSet: forall x string :: {x in vals} x in vals ==> mems(pkCols, x) && fos(pkCols, x) < i
  inv f(i $i, res []dparser.index) @remove: forall k int :: {res[k]} 0 <= k < len(res) ==> memi(indexFieldList, res[k]) && !allpk(res[k], pkCols)
  inv c(i $i, res []dparser.index) @remove: forall k int :: {indexFieldList[k]} 0 <= k < i && !allpk(indexFieldList[k], pkCols) ==> memi(res, indexFieldList[k])
  inv in(i $i, fs dparser.index): forall p int :: {fs[p]} 0 <= p < i ==> mems(pkCols, fs[p].Name)

pure allpk(r []*dparser.IndexField, pk []string) bool = forall p int :: {r[p]} 0 <= p < len(r) ==> mems(pk, r[p].Name)
pure allpkq(n int, pk []string) bool = forall p int :: {fcq[p]} 0 <= p < n ==> mems(pk, fcq[p].Name)

func database/dservice/dparser.IndexTargetBuilder.buildIndexComposition(itb, fColumns, pkCols) (res)
  prop P06
  main P06
  frame
  requires wf: forall x *dparser.FieldColumn :: {x in fColumns.vals} x in fColumns.vals ==> x != nil && cn(x.Name) == x && fColumns.vals[x]
  ensures sound: forall k int :: {res[k]} 0 <= k < len(res) ==> spells(res[k], fColumns.vals) && eff(res[k], len(fColumns.vals)) && !allpk(res[k], pkCols)
  ensures complete: forall n int :: {mk(n, old(len(fColumns.vals)))} mk(n, old(len(fColumns.vals))) && sel(n, fColumns.vals) && effq(n, len(fColumns.vals)) && !allpkq(n, pkCols) ==> exists k int :: {res[k]} 0 <= k < len(res) && isq(res[k], n)
