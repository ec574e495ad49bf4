------------------------------- MODULE QpPlot -------------------------------
(***************************************************************************)
(* Plotting.  A request shows some distributions of an ensemble, either on *)
(* new axes with the limits given or on axes that exist; a curve is the    *)
(* density of its own distribution between the limits that the axes have   *)
(* at that moment, or at the points the representation is made of.  A      *)
(* request adds to the axes it names and leaves the others, the limits and *)
(* the ensemble as they were.  With both limits and axes, or neither, it   *)
(* is refused and nothing is changed.  `cur` is what matplotlib takes as   *)
(* the current axes: the ones made last, which must not matter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,        \* distributions of the ensemble
          Lims,     \* number of choices of the limits
          MaxAxes, Len0, Emit, MUT
VARIABLES axes, cur, log
vars == <<axes, cur, log>>

Kinds == {"plot", "native", "samples"}
\* keys: one row, a slice of rows, in order
Keys == {<<i>> : i \in 1..N} \cup {[k \in 1..(j - i + 1) |-> i + k - 1] : i \in 1..N, j \in 1..N}
KeysOf(kind) == IF kind = "samples" THEN {<<i>> : i \in 1..N} ELSE {k \in Keys : k # <<>>}

Curve(kind, row, lim) == [kind |-> kind, row |-> IF MUT = "firstrow" THEN 1 ELSE row, lim |-> lim]
Curves(kind, key, lim) == [i \in 1..Len(key) |-> Curve(kind, key[i], lim)]

Init == axes = <<>> /\ cur = 0 /\ log = <<>>
Done(ev) == /\ Len(log) < Len0
            /\ log' = Append(log, ev)
            /\ (Emit /\ Len(log') = Len0) => PrintT("@@" \o ToJson([ops |-> log', axes |-> axes']))
\* on new axes
New(kind, key, lim) ==
  /\ kind # "samples" /\ Len(axes) < MaxAxes
  /\ axes' = Append(axes, [lim |-> lim, curves |-> Curves(kind, key, lim)])
  /\ cur' = Len(axes) + 1
  /\ Done([op |-> "new", kind |-> kind, key |-> key, lim |-> lim, a |-> Len(axes) + 1])
\* on axes that exist
Onto(kind, key, a) ==
  LET where == IF MUT = "current" THEN cur ELSE a
      lim == IF MUT = "newestlimits" THEN axes[Len(axes)].lim ELSE axes[a].lim
  IN /\ axes' = [axes EXCEPT ![where].curves = @ \o Curves(kind, key, lim)]
     /\ cur' = cur
     /\ Done([op |-> "onto", kind |-> kind, key |-> key, lim |-> axes[a].lim, a |-> a])
\* the user makes axes, chooses other limits, or makes axes the current ones
Own(lim) == /\ Len(axes) < MaxAxes
            /\ axes' = Append(axes, [lim |-> lim, curves |-> <<>>]) /\ cur' = Len(axes) + 1
            /\ Done([op |-> "own", lim |-> lim, a |-> Len(axes) + 1])
Relim(a, lim) == /\ lim # axes[a].lim
                 /\ axes' = [axes EXCEPT ![a].lim = lim] /\ cur' = cur
                 /\ Done([op |-> "relim", lim |-> lim, a |-> a])
Take(a) == /\ a # cur /\ cur' = a /\ axes' = axes
           /\ Done([op |-> "take", a |-> a])
Refuse(kind, key, a) == /\ kind # "samples" /\ UNCHANGED <<axes, cur>>
                        /\ Done([op |-> "refuse", kind |-> kind, key |-> key, a |-> a])
Next == \/ \E kind \in Kinds : \E key \in KeysOf(kind) :
              \/ \E lim \in 1..Lims : New(kind, key, lim)
              \/ \E a \in DOMAIN axes : Onto(kind, key, a)
              \/ \E a \in {0} \cup DOMAIN axes : Refuse(kind, key, a)
        \/ \E lim \in 1..Lims : Own(lim)
        \/ \E a \in DOMAIN axes : Take(a) \/ \E lim \in 1..Lims : Relim(a, lim)
Spec == Init /\ [][Next]_vars

\* ---- what is promised, from the requests alone
RECURSIVE Asked(_, _, _)
Asked(i, a, lim) ==  \* the curves asked for on axes a by the requests from the i-th on
  IF i > Len(log) THEN <<>>
  ELSE LET ev == log[i]
       IN IF ev.op \in {"new", "onto"} /\ ev.a = a
          THEN LET now == IF ev.op = "new" THEN ev.lim ELSE lim
               IN [k \in 1..Len(ev.key) |-> [kind |-> ev.kind, row |-> ev.key[k], lim |-> now]] \o Asked(i + 1, a, now)
          ELSE IF ev.op \in {"own", "relim"} /\ ev.a = a THEN Asked(i + 1, a, ev.lim)
          ELSE Asked(i + 1, a, lim)
Shown == \A a \in DOMAIN axes : axes[a].curves = Asked(1, a, 0)
\* only the axes named change, and what was drawn stays
Stays == [][\A a \in DOMAIN axes :
     /\ \E k \in 0..Len(axes'[a].curves) : SubSeq(axes'[a].curves, 1, k) = axes[a].curves
     /\ (axes'[a] # axes[a] => log'[Len(log')].a = a)]_vars
RefusedLeaves == [][log'[Len(log')].op = "refuse" => UNCHANGED <<axes, cur>>]_vars
=============================================================================
