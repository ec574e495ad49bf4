--------------------------- MODULE QpChunksTrace ---------------------------
(***************************************************************************)
(* Validates traces recorded from the code against QpChunks: the chunks    *)
(* that the iterators of the ranks gave, in the order they gave them.      *)
(* TRACES is a file with one trace on each line:                           *)
(*   [n, c, p, ev: sequence of [r, s, e, k]]                               *)
(* where k is the number of distributions in the chunk.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES i, j, taken, last, bad
tvars == <<i, j, taken, last, bad>>
Q == INSTANCE QpChunks WITH N <- 1, C <- 1, P <- 1, Mode <- "read", Depth <- 0, MUT <- "", n <- 1, c <- 1, p <- 1, who <- <<1>>,
                            at <- <<0>>, file <- <<0>>, log <- <<>>, fin <- FALSE
Traces == ndJsonDeserialize(IOEnv.TRACES)
Start(t) == /\ taken = [x \in 1..Traces[t].n |-> 0]
            /\ last = [x \in 1..Traces[t].p |-> 0]
Init == i = 1 /\ j = 1 /\ bad = "" /\ Start(1)
T == Traces[i]
E == T.ev[j]
\* why an event is not a step
Why == IF E.r < 1 \/ E.r > T.p THEN "rank"
       ELSE IF E.k # E.e - E.s THEN "size of the ensemble is not that of the range"
       ELSE IF E.e - E.s > T.c THEN "chunk larger than asked for"
       ELSE IF E.s < last[E.r] THEN "chunks of a rank are not in order"
       ELSE IF ~(E.s >= 0 /\ E.s < E.e /\ E.e <= T.n) THEN "range outside of the file"
       ELSE IF ~Q!Takes(T.n, T.c, taken, last[E.r], E.s, E.e) THEN "distribution given twice"
       ELSE ""
StepOn == /\ i <= Len(Traces) /\ j <= Len(T.ev) /\ bad = ""
          /\ IF Why = ""
             THEN /\ taken' = [x \in 1..T.n |-> IF x > E.s /\ x <= E.e THEN 1 ELSE taken[x]]
                  /\ last' = [last EXCEPT ![E.r] = E.e]
                  /\ bad' = ""
             ELSE bad' = Why /\ UNCHANGED <<taken, last>>
          /\ j' = j + 1 /\ UNCHANGED i
EndOf == /\ i <= Len(Traces) /\ (j > Len(T.ev) \/ bad # "")
         /\ LET v == IF bad # "" THEN bad ELSE IF \E x \in 1..T.n : taken[x] = 0 THEN "distributions are missing" ELSE ""
            IN PrintT("@@" \o ToJson([trace |-> i, verdict |-> v, at |-> j]))
         /\ i' = i + 1 /\ j' = 1 /\ bad' = ""
         /\ taken' = IF i < Len(Traces) THEN [x \in 1..Traces[i + 1].n |-> 0] ELSE <<>>
         /\ last' = IF i < Len(Traces) THEN [x \in 1..Traces[i + 1].p |-> 0] ELSE <<>>
Next == StepOn \/ EndOf
Spec == Init /\ [][Next]_tvars
=============================================================================
