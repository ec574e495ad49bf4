------------------------------ MODULE QpChunks ------------------------------
(***************************************************************************)
(* Chunked reading by parallel ranks and chunked writing by writers that   *)
(* take their turns in any order.                                          *)
(*                                                                         *)
(* Reading: the n rows of a file are cut into chunks of c rows (the last   *)
(* one may be shorter).  A rank takes chunks that nobody has taken, in     *)
(* increasing order, until none is left for it.  Which rank takes which    *)
(* chunk is left open: any assignment is fine.                             *)
(*                                                                         *)
(* Writing: a file of n empty places is allocated; writers put the rows of *)
(* an ensemble to their places, in any order and possibly again; what was  *)
(* written last stays.  The file is finished when no place is empty.       *)
(*                                                                         *)
(* The step relations (Takes, Puts) are shared with the validation of the  *)
(* traces recorded from the code (QpChunksTrace.tla).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, C, P,   \* most rows, rows in a chunk, ranks (reading); places, longest write, writers (writing)
          Mode,      \* "read" or "write"
          Depth,     \* most steps of a logged behaviour (0: explore, no log)
          MUT
VARIABLES n, c, p, who, taken, last, at, file, log, fin
size == <<n, c, p, who>>
vars == <<n, c, p, who, taken, last, at, file, log, fin>>
SIM == Depth > 0
Choices(S) == IF SIM THEN {RandomElement(S)} ELSE S
Min(a, b) == IF a < b THEN a ELSE b
Ranks == 1..p

(******************************** reading **********************************)
NChunks == (n + c - 1) \div c
Chunk(k) == [start |-> k * c, end |-> Min((k + 1) * c, n)]
\* a rank whose chunks so far end at l may take the rows from s to e (from 0, e excluded), given what is taken
Takes(m, d, tk, l, s, e) ==
   /\ s >= l /\ s < e /\ e <= m /\ e - s <= d
   /\ \A i \in (s + 1)..e : tk[i] = 0

Read(r) == /\ Mode = "read" /\ ~fin /\ ~SIM
           /\ \E k \in 0..(NChunks - 1) :
                LET s == k * c
                    e == IF MUT = "short" /\ k = NChunks - 1 THEN k * c + c ELSE Chunk(k).end
                IN /\ (who[k] = r \/ MUT = "twice")
                   /\ \A x \in 0..(k - 1) : (who[x] = r /\ MUT # "twice") => taken[x * c + 1] > 0
                   /\ (Takes(n, c, taken, last[r], s, e) \/ (MUT \in {"twice", "short"} /\ s >= last[r]))
                   /\ taken' = [i \in 1..n |-> IF i > s /\ i <= e THEN taken[i] + 1 ELSE taken[i]]
                   /\ last' = [last EXCEPT ![r] = e]
           /\ UNCHANGED <<at, file, fin, size, log>>

\* for schedules to be replayed: only the order in which the ranks ask for their next chunk
Ask(r) == /\ Mode = "read" /\ SIM /\ ~fin /\ Len(log) < n + 2
          /\ log' = Append(log, r)
          /\ UNCHANGED <<at, file, fin, size, taken, last>>

\* the ranks stop when everything is taken
AllTaken == \A i \in 1..n : taken[i] >= 1
StopRead == /\ Mode = "read" /\ ~fin /\ (IF SIM THEN Len(log) = n + 2 ELSE AllTaken)
            /\ fin' = TRUE
            /\ (SIM => PrintT("@@" \o ToJson([n |-> n, c |-> c, p |-> p, sched |-> log])))
            /\ UNCHANGED <<taken, last, at, file, log, size>>

(******************************** writing **********************************)
\* a file after rows are put at the places from s to e
Puts(f, s, e, rows) == [i \in 1..Len(f) |-> IF i > s /\ i <= e THEN rows[i - s] ELSE f[i]]
Empty(f) == {i \in 1..Len(f) : f[i] = 0}
\* what writer r puts to k places (to be bound with \E)
Rows(r, k) == IF SIM THEN {RandomElement([1..k -> 1..7])} ELSE {[j \in 1..k |-> r]}
Write(r) == /\ Mode = "write" /\ ~fin /\ (SIM => Len(log) < 3 * n + 2)
            /\ \E s \in Choices(0..(n - 1)) : \E e \in Choices((s + 1)..Min(n, s + c)) : \E rows \in Rows(r, e - s) :
                 /\ file' = IF MUT = "first" THEN [i \in 1..n |-> IF i > s /\ i <= e /\ file[i] = 0 THEN rows[i - s] ELSE file[i]]
                            ELSE Puts(file, s, e, rows)
                 /\ at' = [i \in 1..n |-> IF i > s /\ i <= e THEN rows[i - s] ELSE at[i]]
                 /\ log' = IF SIM THEN Append(log, [w |-> r, start |-> s, end |-> e, rows |-> rows]) ELSE log
            /\ UNCHANGED <<taken, last, fin, size>>
StopWrite == /\ Mode = "write" /\ ~fin /\ Empty(file) = {}
             /\ fin' = TRUE
             /\ (SIM => PrintT("@@" \o ToJson([n |-> n, writes |-> log, file |-> file])))
             /\ UNCHANGED <<taken, last, at, file, log, size>>

Init == /\ n \in 1..N /\ c \in 1..C /\ p \in 1..P
        /\ who \in [0..(NChunks - 1) -> IF Mode = "read" /\ ~SIM THEN Ranks ELSE {1}]
        /\ taken = [i \in 1..n |-> 0] /\ last = [r \in Ranks |-> 0]
        /\ at = [i \in 1..n |-> 0] /\ file = [i \in 1..n |-> 0]
        /\ log = <<>> /\ fin = FALSE
Next == (\E r \in Ranks : Read(r)) \/ (\E r \in Choices(Ranks) : Ask(r)) \/ (\E r \in Choices(Ranks) : Write(r)) \/ StopRead \/ StopWrite
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
\* reading comes to an end
Ends == Mode = "read" => <>fin
View == <<size, taken, last, at, file, fin>>

\* nothing is given twice, and at the end everything was given
Once == Mode = "read" => \A i \in 1..n : taken[i] <= 1
Covered == Mode = "read" /\ fin => AllTaken
Inside == \A r \in Ranks : last[r] <= n
\* every place holds what was written to it last
LastWins == Mode = "write" => file = at
Complete == Mode = "write" /\ fin => Empty(file) = {}
=============================================================================
