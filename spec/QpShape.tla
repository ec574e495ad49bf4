------------------------------ MODULE QpShape ------------------------------
(***************************************************************************)
(* Ensembles whose distributions are arranged in several dimensions.       *)
(*                                                                         *)
(* An ensemble of shape s holds the distributions 1..Size(s) in row major  *)
(* order.  A function is asked for at an array x with up to one dimension  *)
(* more than s, each of length one or that of the result; the last         *)
(* dimension is the one of the values.  The answer has the shape s \o <<m>>*)
(* and holds at each position the answer of the distribution of that       *)
(* position to the value that broadcasting puts there.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxSize, MaxDim, MaxM, Emit, MUT
VARIABLES q

RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE Head(s) * Size(Tail(s))
\* number (from 1) of the position idx (from 1) in row major order
RECURSIVE Rank(_, _)
Rank(s, idx) == IF s = <<>> THEN 1
                ELSE IF MUT = "column" THEN Head(idx) + Head(s) * (Rank(Tail(s), Tail(idx)) - 1)
                ELSE (Head(idx) - 1) * Size(Tail(s)) + Rank(Tail(s), Tail(idx))
\* the position of a number
RECURSIVE At(_, _)
At(s, k) == IF s = <<>> THEN <<>>
            ELSE LET z == Size(Tail(s)) IN <<(k - 1) \div z + 1>> \o At(Tail(s), ((k - 1) % z) + 1)
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

Shapes == {s \in UNION {[1..d -> 1..4] : d \in 1..MaxDim} : Size(s) <= MaxSize}
\* the shapes of x: the leading dimensions may be missing, any may have length one (the last one is m)
Args(s, m) ==
  LET full == s \o <<m>>
  IN UNION {{[i \in 1..k |-> IF i = k THEN m ELSE IF i \in one THEN 1 ELSE full[Len(full) - k + i]] :
             one \in SUBSET (1..(k - 1))} : k \in 1..Len(full)}
\* the value of x at a position of the result
Src(x, full, idx) ==
  LET k == Len(x)
      own == [i \in 1..k |-> IF x[i] = 1 THEN 1 ELSE idx[Len(full) - k + i]]
  IN Rank(x, own)
Answer(s, x) ==
  LET m == Last(x)
      full == s \o <<m>>
  IN [p \in 1..Size(full) |->
        LET idx == At(full, p) IN <<Rank(s, Front(idx)), Src(x, full, idx)>>]

Init == \E s \in Shapes, m \in 1..MaxM : \E x \in Args(s, m) :
          /\ q = [s |-> s, x |-> x, ans |-> Answer(s, x)]
          /\ (Emit => PrintT("@@" \o ToJson([shape |-> s, x |-> x, want |-> Answer(s, x)])))
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

\* flattening the ensemble, with its values broadcast and flattened likewise, gives the same answers in the same order
Flattened ==
  LET m == Last(q.x)
  IN \A p \in DOMAIN q.ans : q.ans[p][1] = (p - 1) \div m + 1
\* every distribution answers, and every value is used
Covered ==
  /\ {q.ans[p][1] : p \in DOMAIN q.ans} = 1..Size(q.s)
  /\ {q.ans[p][2] : p \in DOMAIN q.ans} = 1..Size(q.x)
\* values common to all are given to all alike
Common == Size(q.x) = Last(q.x) => \A p \in DOMAIN q.ans : q.ans[p][2] = ((p - 1) % Last(q.x)) + 1
\* one row of values for each distribution keeps them together
Own == Size(q.x) = Size(q.s) * Last(q.x) => \A p \in DOMAIN q.ans : q.ans[p][2] = p
=============================================================================
