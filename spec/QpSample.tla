------------------------------ MODULE QpSample ------------------------------
(***************************************************************************)
(* Drawing samples.  A source of deviates is a seed, which gives the same  *)
(* stream from its start every time, or a generator object, which goes on  *)
(* where it stopped.  Drawing takes one deviate for each distribution and  *)
(* sample, in order, and gives the inverse cdf of the own distribution of  *)
(* the row at it.  Drawing changes the position of the object and nothing  *)
(* else.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ens,      \* sequence: number of distributions of each ensemble
          Sizes, Seeds, Objs, Len0, Emit, MUT
VARIABLES pos,      \* of each object
          seed,     \* its stream
          ens,      \* what the ensembles hold
          draws, log
vars == <<pos, seed, ens, draws, log>>

\* what a sample is: the distribution that it comes from, and the deviate
Cell(e, i, stream, at) == [e |-> e, row |-> IF MUT = "firstrow" THEN 1 ELSE i, s |-> stream, at |-> at]
Matrix(e, size, stream, from) ==
  [i \in 1..Ens[e] |-> [j \in 1..size |->
     Cell(e, i, stream, from + (IF MUT = "samedeviates" THEN j - 1 ELSE (i - 1) * size + j - 1))]]

Init == /\ pos = [o \in Objs |-> 0] /\ seed = [o \in Objs |-> 1]
        /\ ens = [e \in DOMAIN Ens |-> 0] /\ draws = <<>> /\ log = <<>>
Done(ev) == /\ Len(log) < Len0
            /\ log' = Append(log, ev)
            /\ (Emit /\ Len(log') = Len0) => PrintT("@@" \o ToJson([ops |-> log']))
DrawSeed(e, size, s) ==
  LET from == IF MUT = "stateful" THEN Cardinality({i \in 1..Len(draws) : draws[i].src = <<"seed", s>>}) ELSE 0
      m == Matrix(e, size, s, from)
  IN /\ draws' = Append(draws, [e |-> e, size |-> size, src |-> <<"seed", s>>, m |-> m])
     /\ ens' = IF MUT = "consume" THEN [ens EXCEPT ![e] = @ + 1] ELSE ens
     /\ Done([op |-> "seed", e |-> e, size |-> size, s |-> s, from |-> from])
     /\ UNCHANGED <<pos, seed>>
DrawObj(e, size, o) ==
  LET m == Matrix(e, size, seed[o], pos[o])
  IN /\ draws' = Append(draws, [e |-> e, size |-> size, src |-> <<"object", o>>, m |-> m])
     /\ pos' = [pos EXCEPT ![o] = IF MUT = "rewind" THEN 0 ELSE @ + Ens[e] * size]
     /\ Done([op |-> "object", e |-> e, size |-> size, o |-> o, s |-> seed[o], from |-> pos[o]])
     /\ UNCHANGED <<seed, ens>>
\* a new object of the same name
Renew(o, s) == /\ pos' = [pos EXCEPT ![o] = 0] /\ seed' = [seed EXCEPT ![o] = s]
               /\ Done([op |-> "renew", o |-> o, s |-> s])
               /\ UNCHANGED <<ens, draws>>
Next == \/ \E e \in DOMAIN Ens : \E n \in Sizes : (\E s \in Seeds : DrawSeed(e, n, s)) \/ (\E o \in Objs : DrawObj(e, n, o))
        \/ \E o \in Objs : \E s \in Seeds : Renew(o, s)
Spec == Init /\ [][Next]_vars

Shape == \A k \in DOMAIN draws : LET d == draws[k] IN
            Len(d.m) = Ens[d.e] /\ \A i \in DOMAIN d.m : Len(d.m[i]) = d.size
OwnRow == \A k \in DOMAIN draws : \A i \in DOMAIN draws[k].m : \A j \in DOMAIN draws[k].m[i] :
            draws[k].m[i][j].row = i /\ draws[k].m[i][j].e = draws[k].e
\* the same seed gives the same samples
Reproducible == \A k, l \in DOMAIN draws :
   (draws[k].src[1] = "seed" /\ draws[l].src = draws[k].src /\ draws[k].e = draws[l].e /\ draws[k].size = draws[l].size)
      => draws[k].m = draws[l].m
\* no deviate is used twice in a draw, so that the distributions are independent
Independent == \A k \in DOMAIN draws : LET d == draws[k] IN
   \A i, a \in DOMAIN d.m : \A j, b \in 1..d.size : <<i, j>> # <<a, b>> => d.m[i][j].at # d.m[a][b].at
\* an object that was not renewed goes on
Untouched == \A e \in DOMAIN Ens : ens[e] = 0
GoesOn == [][\A o \in Objs :
   (Len(draws') > Len(draws) /\ draws'[Len(draws')].src = <<"object", o>>) =>
      LET d == draws'[Len(draws')]
      IN /\ pos'[o] = pos[o] + Ens[d.e] * d.size
         /\ \A i \in DOMAIN d.m : \A j \in 1..d.size : d.m[i][j].at >= pos[o] /\ d.m[i][j].at < pos'[o]]_vars
MCEns == <<1, 2>>
MCEnsBig == <<1, 2, 3, 5>>
View == <<pos, seed, ens, draws>>
=============================================================================
