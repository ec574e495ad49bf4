------------------------------- MODULE QpLaw -------------------------------
(* Judges recorded tables: the clauses of QpCoherence that each one breaks *)
EXTENDS QpCoherence, TLC, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
Init == k = 0
Next == /\ k < Len(Cases)
        /\ k' = k + 1
        /\ PrintT("@@" \o ToJson([k |-> k', fails |-> Fails(Cases[k'])]))
Spec == Init /\ [][Next]_k
=============================================================================
