----------------------------- MODULE QpMetrics -----------------------------
(***************************************************************************)
(* Metrics accumulated over chunks by workers and finalised by one of      *)
(* them.  The data are n items; they are cut into chunks of any lengths;   *)
(* every chunk belongs to a worker; the workers accumulate their chunks in *)
(* any order; the parts are gathered in any order and finalised.           *)
(*                                                                         *)
(* A part is what a worker sends: for sums the sum and the number of       *)
(* items, for digests the items themselves with their weights (a bag).     *)
(* Whatever the cuts, workers and orders are, finalising has to give the   *)
(* sum, number and bag of all of the items.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, W, K,   \* most items, workers, longest chunk
          Emit,      \* behaviours are logged and printed
          MUT
VARIABLES n, data, cuts, own, parts, got, res, log
vars == <<n, data, cuts, own, parts, got, res, log>>

RECURSIVE Sum(_, _)
Sum(F, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F[x] + Sum(F, S \ {x})
Size == Sum(cuts, DOMAIN cuts)
Start(k) == Sum(cuts, 1..(k - 1))
Items(k) == (Start(k) + 1)..(Start(k) + cuts[k])
Item(i) == i * i + 1
\* how many of the items with each value
Bag(d, I) == [v \in {d[i] : i \in I} |-> Cardinality({i \in I : d[i] = v})]
Merge(a, b) == [v \in DOMAIN a \cup DOMAIN b |->
                  (IF v \in DOMAIN a THEN a[v] ELSE 0) + (IF v \in DOMAIN b THEN b[v] ELSE 0)]
NoBag == [v \in {} |-> 0]
Part(d, I) == [sum |-> Sum(d, I), num |-> Cardinality(I), bag |-> Bag(d, I)]
Whole == Part([i \in 1..n |-> Item(i)], 1..n)

Init == /\ n \in 1..N /\ data = [i \in 1..n |-> Item(i)]
        /\ cuts = <<>> /\ own = <<>> /\ parts = <<>> /\ got = <<>> /\ res = <<>> /\ log = <<>>

\* the next chunk: its length and its worker
Cut == /\ res = <<>> /\ Size < n /\ parts = <<>>
       /\ \E k \in {k \in 1..(n - Size) : k <= K} : \E w \in 1..W :
            /\ cuts' = Append(cuts, k)
            /\ own' = Append(own, w)
       /\ UNCHANGED <<n, data, parts, got, res, log>>

Taken(k) == \E j \in 1..Len(parts) : parts[j].k = k
\* worker w accumulates one of its chunks
Accumulate(w) ==
   /\ Size = n /\ res = <<>>
   /\ \E k \in {k \in 1..Len(cuts) : own[k] = w /\ ~Taken(k)} :
        /\ LET I == IF MUT = "single" /\ cuts[k] = 1 THEN {}
                    ELSE IF MUT = "overlap" /\ k < Len(cuts) THEN Items(k) \cup {Start(k) + cuts[k] + 1}
                    ELSE Items(k)
           IN parts' = Append(parts, [k |-> k, val |-> Part(data, I)])
        /\ data' = IF MUT = "inplace" THEN [i \in 1..n |-> IF i \in Items(k) THEN 0 ELSE data[i]] ELSE data
        /\ log' = IF Emit THEN Append(log, [w |-> w, k |-> k]) ELSE log
   /\ UNCHANGED <<n, cuts, own, got, res>>

\* one of the parts is gathered
Gather ==
   /\ Len(parts) = Len(cuts) /\ Size = n /\ res = <<>> /\ Len(got) < Len(cuts)
   /\ \E j \in {j \in 1..Len(parts) : \A i \in 1..Len(got) : got[i] # j} : got' = Append(got, j)
   /\ UNCHANGED <<n, data, cuts, own, parts, res, log>>

RECURSIVE Fold(_)
Fold(k) == IF k = 0 THEN [sum |-> 0, num |-> 0, bag |-> NoBag]
           ELSE LET a == Fold(k - 1)
                    b == parts[got[k]].val
                IN [sum |-> a.sum + b.sum, num |-> a.num + b.num, bag |-> Merge(a.bag, b.bag)]
\* means are kept as fractions: sum / num
MeanOfMeans == LET m == Len(got)
                   D == [j \in 1..m |-> parts[got[j]].val]
                   RECURSIVE Den(_)
                   Den(j) == IF j = 0 THEN 1 ELSE D[j].num * Den(j - 1)
                   d == Den(m)
               IN [sum |-> Sum([j \in 1..m |-> D[j].sum * (d \div D[j].num)], 1..m), num |-> d * m, bag |-> Whole.bag]
Finalise ==
   /\ Len(got) = Len(cuts) /\ Size = n /\ cuts # <<>> /\ res = <<>>
   /\ res' = <<IF MUT = "means" THEN MeanOfMeans ELSE IF MUT = "last" THEN Fold(Len(got) - 1) ELSE Fold(Len(got))>>
   /\ (Emit => PrintT("@@" \o ToJson([n |-> n, cuts |-> cuts, own |-> own, acc |-> log, got |-> got])))
   /\ UNCHANGED <<n, data, cuts, own, parts, got, log>>

Next == Cut \/ (\E w \in 1..W : Accumulate(w)) \/ Gather \/ Finalise
Spec == Init /\ [][Next]_vars

Done == res # <<>>
\* to rounding: the mean is that of all of the data
SameMean == Done => res[1].sum * Whole.num = Whole.sum * res[1].num
SameBag == Done => res[1].bag = Whole.bag
Untouched == data = [i \in 1..n |-> Item(i)]
=============================================================================
