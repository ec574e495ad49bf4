----------------------------- MODULE QpConvert -----------------------------
(***************************************************************************)
(* Conversions between representations, one after another.                 *)
(*                                                                         *)
(* An ensemble is its representation and a sequence of distributions; a    *)
(* distribution is the chain of representations that it has been through,  *)
(* the first of them with the number of the original one.  A conversion    *)
(* makes a new ensemble and looks at each distribution of its source once. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Origins,      \* representations that ensembles are made in
          Targets,      \* representations (with the method) that can be converted to
          NRows, MaxLen, MaxEns, MUT, Emit, Rand
VARIABLES ens,   \* sequence of ensembles: kind, rows
          log    \* what was done
vars == <<ens, log>>
Row(o, r) == <<o, ToString(r)>>                     \* a chain
Extend(chain, t) == Append(chain, t)

Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
RowSeqs(n) == {s \in [1..n -> 1..NRows] : TRUE}
Init == ens = <<>> /\ log = <<>>

Make == /\ Len(ens) < MaxEns /\ Len(ens) = 0
        /\ \E o \in Pick({x \in Origins : Len(ens) >= 0}) :
           \E n \in Pick({x \in 1..NRows : Len(ens) >= 0}) :
           \E s \in Pick({x \in RowSeqs(n) : Len(ens) >= 0}) :
             /\ ens' = Append(ens, [kind |-> o, rows |-> [i \in 1..n |-> Row(o, s[i])]])
             /\ log' = Append(log, [op |-> "make", kind |-> o, rows |-> s])

\* the distributions of a source in the order in which a conversion gives them
Order(n) == IF MUT = "order" THEN [i \in 1..n |-> n + 1 - i] ELSE [i \in 1..n |-> i]
Convert == /\ Len(ens) > 0 /\ Len(ens) < MaxEns
           /\ \E i \in Pick(1..Len(ens)) :
              \E t \in Pick({x \in Targets : Len(ens) >= 0}) :
              \E fn \in Pick({x \in {"ensemble", "module"} : Len(ens) >= 0}) :
                LET src == ens[i]
                    n == Len(src.rows)
                    new == [kind |-> t, rows |-> [k \in 1..n |-> Extend(src.rows[Order(n)[k]], t)]]
                    old == IF MUT = "inplace" THEN [ens EXCEPT ![i] = new] ELSE ens
                IN /\ Len(src.rows[1]) <= MaxLen
                   /\ ens' = Append(old, new)
                   /\ log' = Append(log, [op |-> "convert", src |-> i, to |-> t, via |-> fn])

Take == /\ Len(ens) > 0 /\ Len(ens) < MaxEns
        /\ \E i \in Pick(1..Len(ens)) :
           \E m \in Pick({x \in 1..NRows : Len(ens) >= 0}) :
           \E s \in Pick({x \in [1..m -> 1..Len(ens[i].rows)] : Len(ens) >= 0}) :
             /\ ens' = Append(ens, [kind |-> ens[i].kind, rows |-> [k \in 1..m |-> ens[i].rows[s[k]]]])
             /\ log' = Append(log, [op |-> "take", src |-> i, key |-> s])

Next == /\ Make \/ Convert \/ Convert \/ Take
        /\ (~Emit \/ Len(ens') < MaxEns \/ PrintT("@@" \o ToJson([log |-> log', ens |-> ens'])))
Spec == Init /\ [][Next]_vars

\* as many distributions, in the order of the source, each a step further
Follows == \A k \in 1..Len(log) :
             log[k].op = "convert" =>
               LET s == ens[log[k].src].rows
                   r == ens[k].rows
               IN /\ Len(r) = Len(s) /\ ens[k].kind = log[k].to
                  /\ \A j \in 1..Len(s) : r[j] = Extend(s[j], log[k].to)
\* what there is stays as it is
Kept == [][\A i \in 1..Len(ens) : ens'[i] = ens[i]]_vars
=============================================================================
