---------------------------- MODULE QpMetricReg ----------------------------
(***************************************************************************)
(* The registry of metrics: classes of metrics are defined at any time,    *)
(* below the base or below another class, with a name or (for abstract     *)
(* ones) without; refreshing the registry finds all of those with a name.  *)
(* A metric is made by its name with the arguments given.  (The registry   *)
(* was filled with the metrics of qp before: it refreshes when asked to.)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS M, Args, Len0, Emit, MUT
VARIABLES par, named, known, made, log
vars == <<par, named, known, made, log>>

Ids == 1..M
Defined == DOMAIN par
Init == par = <<>> /\ named = <<>> /\ known = {} /\ made = <<>> /\ log = <<>>
Done(ev) == /\ Len(log) < Len0
            /\ log' = Append(log, ev)
            /\ (Emit /\ Len(log') = Len0) => PrintT("@@" \o ToJson([ops |-> log']))
\* all classes below the base; with the defect only those directly below it or below a class without name
Found == {c \in Defined : named[c] /\ (MUT = "direct" => (par[c] = 0 \/ ~named[par[c]]))}
Refresh == IF MUT = "keepfirst" /\ known # {} THEN known ELSE Found

Define == /\ Len(par) < M
          /\ \E p \in 0..Len(par) : \E n \in BOOLEAN :
               /\ par' = Append(par, p) /\ named' = Append(named, n)
               /\ Done([op |-> "define", c |-> Len(par) + 1, parent |-> p, named |-> n])
          /\ UNCHANGED <<known, made>>
List(force) == /\ known' = IF force THEN Refresh ELSE known
               /\ Done([op |-> "list", force |-> force, known |-> known', found |-> Found])
               /\ UNCHANGED <<par, named, made>>
\* by name, with arguments; the metrics made before are left alone
Make(c, force, arg) ==
   /\ known' = IF force THEN Refresh ELSE known
   /\ made' = IF c \in known'
              THEN Append(IF MUT = "sharedargs" THEN [i \in DOMAIN made |-> [made[i] EXCEPT !.arg = arg]] ELSE made, [c |-> c, arg |-> arg, want |-> arg])
              ELSE made
   /\ Done([op |-> "make", c |-> c, force |-> force, arg |-> arg, ok |-> c \in known', exists |-> c \in Found])
   /\ UNCHANGED <<par, named>>
Next == Define \/ \E f \in BOOLEAN : List(f) \/ \E c \in Ids : \E a \in Args : Make(c, f, a)
Spec == Init /\ [][Next]_vars

OnlyDefined == \A c \in known : c \in Defined /\ named[c]
Made == \A i \in DOMAIN made : made[i].c \in Defined /\ named[made[i].c] /\ made[i].arg = made[i].want
\* after refreshing, every metric that has a name is known
AllFound == LET ev == IF log = <<>> THEN [op |-> "none"] ELSE log[Len(log)]
            IN (ev.op \in {"list", "make"} /\ ev.force) => known = {c \in Defined : named[c]}
View == <<par, named, known, made, IF log = <<>> THEN <<>> ELSE log[Len(log)], Len(log)>>
=============================================================================
