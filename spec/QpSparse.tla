------------------------------ MODULE QpSparse ------------------------------
(***************************************************************************)
(* Encoding a set of densities with one dictionary of basis functions.     *)
(*                                                                         *)
(* A density is known here by the atoms it consists of, in the order of    *)
(* their weights, which is the order in which a greedy pursuit selects     *)
(* them.  While it encodes one density the encoder swaps the columns of    *)
(* the dictionary to keep those selected in front, and keeps track of what *)
(* they were.  The columns have to be back in place for the next density.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NAtoms, NRows, NTerms, MUT, Emit, Rand
VARIABLES rows,   \* the densities: sequences of atoms
          k,      \* the one being encoded
          col,    \* column of the dictionary -> the atom in it
          idx,    \* column -> the place that it had before this density
          act,    \* number of atoms selected
          code    \* what came out, a sequence of atoms for each density
vars == <<rows, k, col, idx, act, code>>
Atoms == 1..NAtoms
Injective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Densities == {s \in UNION {[1..n -> Atoms] : n \in 1..NTerms} : Injective(s)}
Ident == [c \in Atoms |-> c]

Init == rows = <<>> /\ k = 0 /\ col = Ident /\ idx = Ident /\ act = 0 /\ code = <<>>
RandRows(n) == [r \in 1..RandomElement(1..(NRows + 0 * n)) |-> RandomElement({s \in Densities : n >= 0})]
Ask == /\ k = 0
       /\ IF Rand THEN \E r \in {RandRows(k)} : rows' = r
          ELSE rows' \in UNION {[1..n -> Densities] : n \in 1..NRows}
       /\ k' = 1 /\ UNCHANGED <<col, idx, act, code>>

Swap(f, a, b) == [f EXCEPT ![a] = f[b], ![b] = f[a]]
\* one term: the column that holds the next atom of the density
Select == /\ k > 0 /\ k <= Len(rows) /\ act < Len(rows[k])
          /\ \E c \in Atoms :
                /\ col[c] = rows[k][act + 1]
                /\ col' = Swap(col, act + 1, c)
                /\ idx' = Swap(idx, act + 1, c)
          /\ act' = act + 1 /\ UNCHANGED <<rows, k, code>>
\* the density is done: the code, and the columns back in place
Back == LET Place(a) == CHOOSE c \in Atoms : idx[c] = a
        IN [a \in Atoms |-> col[Place(a)]]
Finish == /\ k > 0 /\ k <= Len(rows) /\ act = Len(rows[k])
          /\ code' = Append(code, [t \in 1..act |-> idx[t]])
          /\ col' = IF MUT = "swapped" THEN col ELSE Back
          /\ idx' = Ident /\ act' = 0 /\ k' = k + 1
          /\ UNCHANGED rows
          /\ (k < Len(rows) \/ ~Emit \/ PrintT("@@" \o ToJson([rows |-> rows, code |-> code'])))
Next == Ask \/ Select \/ Finish
Spec == Init /\ [][Next]_vars

\* columns are never lost, and what is tracked is right
Permuted == {col[c] : c \in Atoms} = Atoms /\ {idx[c] : c \in Atoms} = Atoms
\* every density has the code it has on its own, and the dictionary is as it was
Own == \A r \in 1..Len(code) : code[r] = rows[r]
Intact == act = 0 => col = Ident
=============================================================================
