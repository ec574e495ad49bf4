------------------------------ MODULE QpPursuit -----------------------------
(***************************************************************************)
(* One density on its way through the sparse representation: the pursuit   *)
(* that selects basis functions (atoms) and fits their weights, the code   *)
(* that is written, and what is read back from it.                         *)
(*                                                                         *)
(* Which atom comes next is open here: a greedy pursuit takes the one that *)
(* overlaps most with what is left, so the first may end up with less      *)
(* weight than a later one.  Weights are fitted together after every step. *)
(* Code words have a place for NCodes atoms and Levels steps of weight,    *)
(* relative to the largest one; the reader takes the first as the largest. *)
(* Atom Twin (0: none) is a copy of atom 1.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NAtoms, NTerms, NW, Levels, NCodes, Twin, MUT, Emit, Rand
VARIABLES row,    \* weight of every atom in the density
          sel,    \* the atoms selected
          fit,    \* their weights
          code,   \* what is written: places and levels
          at      \* where we are
vars == <<row, sel, fit, code, at>>
Atoms == 1..NAtoms
Rows == {w \in [Atoms -> 0..NW] : /\ \E a \in Atoms : w[a] > 0
                                  /\ Twin # 0 => w[Twin] = 0}

Init == row = <<>> /\ sel = <<>> /\ fit = <<>> /\ code = <<>> /\ at = "ask"
RandRow(n) == [a \in Atoms |-> IF a = Twin THEN 0 ELSE RandomElement(0..(NW + 0 * n))]
Ask == /\ at = "ask"
       /\ IF Rand THEN \E w \in {RandRow(Len(sel))} : w \in Rows /\ row' = w ELSE row' \in Rows
       /\ at' = IF NAtoms > NCodes /\ MUT # "wrapped" THEN "refused" ELSE "select"
       /\ UNCHANGED <<sel, fit, code>>

In(s) == {s[t] : t \in DOMAIN s}
Canon(a) == IF a = Twin THEN 1 ELSE a
Complete(s) == \A a \in Atoms : row[a] > 0 => a \in {Canon(b) : b \in In(s)}
Depends(a, s) == Canon(a) \in {Canon(b) : b \in In(s)}
\* weights that the fit can have: those of the density, once all of its atoms are there
Fits(s) == IF Complete(s) THEN {[t \in DOMAIN s |-> row[Canon(s[t])]]}
           ELSE {f \in [DOMAIN s -> 0..NW] : \E t \in DOMAIN s : f[t] > 0}
Stop(s, f) == sel' = s /\ fit' = f /\ at' = "write" /\ UNCHANGED <<row, code>>
Select == /\ at = "select" /\ Len(sel) < NTerms /\ ~Complete(sel)
          /\ \E a \in Atoms \ In(sel) :
                IF Depends(a, sel)
                THEN \E f \in Fits(sel) : Stop(IF MUT = "counted" THEN Append(sel, a) ELSE sel, f)
                ELSE sel' = Append(sel, a) /\ UNCHANGED <<row, fit, code, at>>
Enough == /\ at = "select" /\ (Complete(sel) \/ Len(sel) = NTerms)
          /\ \E f \in Fits(sel) : Stop(sel, f)

Largest(f) == CHOOSE t \in DOMAIN f : \A u \in DOMAIN f : f[u] <= f[t]
Swap(s, t) == [s EXCEPT ![1] = s[t], ![t] = s[1]]
Round(n, d) == (2 * n + d) \div (2 * d)
Place(a) == IF MUT = "wrapped" THEN ((a - 1) % NCodes) + 1 ELSE a
Write == /\ at = "write"
         /\ LET h == IF MUT = "first" THEN 1 ELSE Largest(fit)
                top == fit[Largest(fit)]
                ss == Swap(sel, h)
                ff == Swap(fit, h)
            IN code' = [t \in DOMAIN sel |-> [b |-> Place(ss[t]), c |-> Round(ff[t] * Levels, top)]]
         /\ at' = "done" /\ UNCHANGED <<row, sel, fit>>
         /\ (~Emit \/ ~Complete(sel) \/ PrintT("@@" \o ToJson([row |-> row, sel |-> sel, code |-> code'])))
Next == Ask \/ Select \/ Enough \/ Write
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what is read: the weight of every atom, in steps
Read == [a \in Atoms |-> IF \E t \in DOMAIN code : code[t].b = a
                         THEN LET t == CHOOSE u \in DOMAIN code : code[u].b = a
                              IN IF t = 1 THEN Levels ELSE code[t].c
                         ELSE 0]
Abs(n) == IF n < 0 THEN -n ELSE n
\* every term has its own atom and a weight
Sized == at \in {"write", "done"} => Len(sel) = Len(fit) /\ Len(sel) >= 1 /\ Len(sel) <= NTerms
Distinct == Cardinality({Canon(a) : a \in In(sel)}) = Len(sel)
\* what is written fits into the words
InRange == \A t \in DOMAIN code : code[t].c \in 0..Levels /\ code[t].b \in 1..NCodes
\* what is read is what was fitted, up to half a step
Faithful == at = "done" => LET top == fit[Largest(fit)]
                               Has(a) == IF a \in In(sel) THEN fit[CHOOSE t \in DOMAIN sel : sel[t] = a] ELSE 0
                           IN \A a \in Atoms : 2 * Abs(Read[a] * top - Has(a) * Levels) <= top
=============================================================================
