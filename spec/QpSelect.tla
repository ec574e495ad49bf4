------------------------------ MODULE QpSelect ------------------------------
(***************************************************************************)
(* What the keys of an indexing select: integers, slices, masks and arrays *)
(* of indices, with the conventions of Python (from 0, negative ones from  *)
(* the end).  Positions are from 1 here.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL Min(a, b) == IF a < b THEN a ELSE b
LOCAL Max(a, b) == IF a > b THEN a ELSE b
NoneInt == 99

(******************************* selections ********************************)
\* positions (from 1) that a key selects out of n
SliceIdx(a, b, s, n) ==
   LET Norm(v) == IF v < 0 THEN Max(v + n, IF s < 0 THEN -1 ELSE 0)
                  ELSE Min(v, IF s < 0 THEN n - 1 ELSE n)
       start == IF a = NoneInt THEN (IF s > 0 THEN 0 ELSE n - 1) ELSE Norm(a)
       stop == IF b = NoneInt THEN (IF s > 0 THEN n ELSE -1) ELSE Norm(b)
       cnt == IF s > 0 THEN Max(0, (stop - start + s - 1) \div s)
              ELSE Max(0, (start - stop - s - 1) \div (-s))
   IN [i \in 1..cnt |-> start + (i - 1) * s + 1]
AtIdx(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1
MaskIdx(m) == LET RECURSIVE F(_)
                  F(i) == IF i = 0 THEN <<>> ELSE F(i - 1) \o (IF m[i] = 1 THEN <<i>> ELSE <<>>)
              IN F(Len(m))
KeyIdx(key, n) ==
   CASE key.k = "int" -> <<AtIdx(key.i, n)>>
     [] key.k = "slice" -> SliceIdx(key.a, key.b, key.s, n)
     [] key.k = "mask" -> MaskIdx(key.m)
     [] key.k = "index" -> [j \in 1..Len(key.x) |-> AtIdx(key.x[j], n)]
Pick(s, idx) == [j \in 1..Len(idx) |-> s[idx[j]]]
PickAnc(anc, idx) == [c \in 1..Len(anc) |-> Pick(anc[c], idx)]

IntKeys(n) == {[k |-> "int", i |-> i] : i \in (-n)..(n - 1)}
SliceKeys(n) == {[k |-> "slice", a |-> a, b |-> b, s |-> s] :
                   a \in ((-n - 1)..(n + 1)) \cup {NoneInt},
                   b \in ((-n - 1)..(n + 1)) \cup {NoneInt}, s \in {-2, -1, 1, 2, 3}}
MaskKeys(n) == {[k |-> "mask", m |-> m] : m \in [1..n -> 0..1]}
IndexKeys(n) == UNION {{[k |-> "index", x |-> x] : x \in [1..l -> (-n)..(n - 1)]} : l \in 1..Min(3, n)}
\* everything, in every way to say so
FullKeys(n) == {[k |-> "slice", a |-> a, b |-> b, s |-> 1] : a \in {NoneInt, 0, -n}, b \in {NoneInt, n, n + 1}}
               \cup {[k |-> "mask", m |-> [i \in 1..n |-> 1]], [k |-> "index", x |-> [i \in 1..n |-> i - 1]]}
=============================================================================
