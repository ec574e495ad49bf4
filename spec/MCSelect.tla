------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* All of the keys for up to MaxN distributions, with what they select, to *)
(* be replayed; and laws that any selection has to obey.                   *)
(***************************************************************************)
EXTENDS QpSelect, TLC, Json, FiniteSets
CONSTANTS MaxN, Show
VARIABLES n, key
vars == <<n, key>>
AllKeys(m) == IntKeys(m) \cup SliceKeys(m) \cup MaskKeys(m) \cup IndexKeys(m)
Nothing == [k |-> "none"]
Init == n \in 1..MaxN /\ key = Nothing
Next == /\ key = Nothing
        /\ \E x \in AllKeys(n) :
             /\ key' = x
             /\ (Show = 1 /\ KeyIdx(x, n) # <<>> => PrintT("@@" \o ToJson([n |-> n, key |-> x, idx |-> KeyIdx(x, n)])))
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
Idx == KeyIdx(key, n)
\* every position selected is there
InRange == key = Nothing \/ \A j \in 1..Len(Idx) : Idx[j] \in 1..n
\* slices and masks select nothing twice, in order (backwards for a negative step)
Ordered == key = Nothing \/
   CASE key.k = "slice" -> \A j \in 1..(Len(Idx) - 1) : Idx[j + 1] - Idx[j] = key.s
     [] key.k = "mask" -> /\ \A j \in 1..(Len(Idx) - 1) : Idx[j + 1] > Idx[j]
                          /\ \A i \in 1..n : (key.m[i] = 1) <=> (\E j \in 1..Len(Idx) : Idx[j] = i)
     [] OTHER -> Len(Idx) = IF key.k = "int" THEN 1 ELSE Len(key.x)
\* selecting everything from a selection is that selection
Compose == key = Nothing \/ Pick(Idx, KeyIdx([k |-> "slice", a |-> NoneInt, b |-> NoneInt, s |-> 1], Len(Idx))) = Idx
\* reversing twice gives the original
Twice == key = Nothing \/ LET R == [k |-> "slice", a |-> NoneInt, b |-> NoneInt, s |-> -1]
         IN LET r == Pick(Idx, KeyIdx(R, Len(Idx))) IN Pick(r, KeyIdx(R, Len(r))) = Idx
=============================================================================
