------------------------------- MODULE QpEval -------------------------------
(***************************************************************************)
(* Evaluating a function of an ensemble at a scalar, a one-dimensional     *)
(* array, one value for each distribution (a column) or a row of values    *)
(* for each distribution (a matrix).                                       *)
(*                                                                         *)
(* The call is broadcast to one row per distribution, values outside of    *)
(* the support are answered without asking the distribution, what remains  *)
(* is flattened, recognised (or not) as the product of a set of rows and a *)
(* set of values, evaluated, and put back in its places.  Values are       *)
(* tokens; the answer of distribution i to token v is the pair <<i, v>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxM, MaxCells, V, MUT, Emit, Rand
VARIABLES q, gone, pc, fx, fr, way, out
vars == <<q, gone, pc, fx, fr, way, out>>

Tok == 1..V
Queries ==
   [arr : {"scalar"}, n : 1..MaxN, m : {1}, v : [1..1 -> [1..1 -> Tok]]]
   \cup UNION {[arr : {"line"}, n : 1..MaxN, m : {m}, v : [1..1 -> [1..m -> Tok]]] : m \in 1..MaxM}
   \cup UNION {[arr : {"column"}, n : {n}, m : {1}, v : [1..n -> [1..1 -> Tok]]] : n \in 1..MaxN}
   \cup UNION {UNION {[arr : {"matrix"}, n : {n}, m : {m}, v : [1..n -> [1..m -> Tok]]] :
                m \in {k \in 2..MaxM : k * n <= MaxCells}} : n \in 1..MaxN}
\* one query of any size, for simulation
RandRow(m) == RandomElement([1..m -> Tok])
RandQuery == \E a \in RandomElement({{"scalar"}, {"line"}, {"column"}, {"matrix"}, {"matrix"}}) :
             \E n \in {RandomElement(1..MaxN)} :
             \E m \in {IF a \in {"scalar", "column"} THEN 1 ELSE RandomElement(1..MaxM)} :
             \E rep \in {RandomElement(1..4)} :
             \E away \in {RandomElement(SUBSET (1..n))} :
             \E base \in {RandRow(m)} :
             \E rows \in {[i \in 1..n |-> RandRow(m)]} :
             \E h \in {RandomElement(0..n)} :
                q' = [arr |-> a, n |-> n, m |-> m,
                     gap |-> rep = 4 /\ a = "matrix" /\ away # {} /\ away # 1..n,
                     v |-> IF a \in {"scalar", "line"} THEN <<base>>
                           ELSE IF rep = 1 THEN rows                   \* all different
                           ELSE IF rep = 2 THEN [i \in 1..n |-> IF i <= h THEN base ELSE rows[i]]
                           ELSE IF rep = 3 THEN [i \in 1..n |-> base]  \* a product in disguise
                           \* rows of which nothing is left, and a product of the others
                           ELSE [i \in 1..n |-> [j \in 1..m |-> IF i \in away THEN V ELSE IF base[j] = V THEN 1 ELSE base[j]]]]

\* the value of distribution i, place j
Value(i, j) == q.v[IF Len(q.v) = 1 THEN 1 ELSE i][j]
\* what has to come out
Want == [i \in 1..q.n |-> [j \in 1..q.m |-> <<i, Value(i, j)>>]]

\* the last token is outside of the support of the distributions in gone
Inside(i, j) == ~(i \in gone /\ Value(i, j) = V)
Order == [k \in 1..(q.n * q.m) |-> <<((k - 1) \div q.m) + 1, ((k - 1) % q.m) + 1>>]
Places == SelectSeq(Order, LAMBDA p : Inside(p[1], p[2]))
Rank(p) == Cardinality({k \in 1..((p[1] - 1) * q.m + p[2]) : Inside(Order[k][1], Order[k][2])})

Init == /\ q = <<>> /\ gone = {} /\ pc = "ask" /\ fx = <<>> /\ fr = <<>> /\ way = "none" /\ out = <<>>

Ask == /\ pc = "ask"
       /\ IF Rand THEN RandQuery ELSE q' \in Queries
       /\ IF Rand THEN \E g \in {RandomElement(SUBSET (1..q'.n))} : gone' = g
          ELSE gone' \in SUBSET (1..q'.n)
       /\ pc' = "flatten" /\ UNCHANGED <<fx, fr, way, out>>

Flatten == /\ pc = "flatten"
           /\ \E l \in {Places} :
                 /\ fx' = [k \in 1..Len(l) |-> Value(l[k][1], l[k][2])]
                 /\ fr' = [k \in 1..Len(l) |-> l[k][1]]
           /\ pc' = "dispatch" /\ UNCHANGED <<q, gone, way, out>>

Range(s) == {s[k] : k \in 1..Len(s)}
NRow == Cardinality(Range(fr))
\* a product: as many blocks as rows, each of one row, all with the same values in the same order
Factors == /\ Len(fx) > 0 /\ Len(fx) % NRow = 0
           /\ LET b == Len(fx) \div NRow
              IN \A k \in 1..Len(fx) : /\ fx[k] = fx[((k - 1) % b) + 1]
                                       /\ fr[k] = fr[((k - 1) \div b) * b + 1]
\* the defect: a product if the numbers of different values and rows say so
SetLike == Len(fx) > 0 /\ Cardinality(Range(fx)) * NRow = Len(fx)
Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A a \in 1..(Cardinality(S) - 1) : s[a] < s[a + 1]

Dispatch == /\ pc = "dispatch"
            /\ way' = IF Len(fx) = 0 THEN "nothing"
                      ELSE IF (IF MUT = "sets" THEN SetLike ELSE Factors) THEN "product" ELSE "flat"
            /\ pc' = "evaluate" /\ UNCHANGED <<q, gone, fx, fr, out>>

\* what the distributions answer, in flat order
Answer == IF way = "product"
          THEN LET b == Len(fx) \div NRow
                   xs == IF MUT = "sets" THEN Sorted(Range(fx)) ELSE [k \in 1..b |-> fx[k]]
                   rs == IF MUT = "sets" THEN Sorted(Range(fr)) ELSE [k \in 1..NRow |-> fr[(k - 1) * b + 1]]
               IN [k \in 1..Len(fx) |-> <<rs[((k - 1) \div b) + 1], xs[((k - 1) % b) + 1]>>]
          ELSE [k \in 1..Len(fx) |-> <<fr[k], fx[k]>>]

Evaluate == /\ pc = "evaluate"
            /\ \E ans \in {Answer} :
                  out' = [i \in 1..q.n |-> [j \in 1..q.m |->
                            IF Inside(i, j) THEN ans[Rank(<<i, j>>)] ELSE <<i, Value(i, j)>>]]
            /\ pc' = "done" /\ UNCHANGED <<q, gone, fx, fr, way>>
            /\ (~Emit \/ (~Rand /\ gone # {})
                \/ PrintT("@@" \o ToJson([arr |-> q.arr, gap |-> Rand /\ q.gap, n |-> q.n, m |-> q.m, v |-> q.v,
                                          want |-> [i \in 1..q.n |-> [j \in 1..q.m |-> out'[i][j]]]])))

Next == Ask \/ Flatten \/ Dispatch \/ Evaluate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* one row per distribution, one column per value, each the answer of the distribution alone
Pointwise == pc = "done" => out = Want
Ends == <>(pc = "done")
=============================================================================
