// position of the first occurrence of a string
pure fos(s []string, x string) int
axiom fos_def [fos(,mems(]: forall s []string, k int :: {s[k], fos(s, s[k])} 0 <= k < len(s) ==> 0 <= fos(s, s[k]) && fos(s, s[k]) <= k && s[fos(s, s[k])] == s[k]
pure mems(s []string, x string) bool = 0 <= fos(s, x) && fos(s, x) < len(s) && s[fos(s, x)] == x

// some step outside or inside the program reported a failure
ghost bad bool
