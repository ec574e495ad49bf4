------------------------------- MODULE QpCode -------------------------------
(***************************************************************************)
(* The integer codecs: densities packed to bytes, and pairs of coefficient *)
(* and basis index packed to one integer.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(******************************* linear bytes ******************************)
\* v in 0..m: the bytes within half a step of 255 v / m
LinBytes(v, m) == {p \in 0..255 : LET d == 255 * v - p * m IN 2 * d <= m /\ -2 * d <= m}
LinOk(v, m, p) == LET d == 255 * v - p * m IN 2 * d <= m /\ -2 * d <= m

(***************************** logarithmic bytes ***************************)
\* a value is maximum * 10^(-j * floor / (255 * U)), j in units of 1/U of a step;
\* the bytes within half a step
U == 8
LogBytes(j) == {p \in 0..255 : LET d == U * (255 - p) - j IN 2 * d <= U /\ -2 * d <= U}
               \cup (IF 2 * (j - U * 255) >= -U THEN {0} ELSE {})

(********************************** sparse *********************************)
Base == 65536
Pack(c, b) == c * Base + b
Coef(n) == n \div Base                 \* floor: the sign goes with the coefficient
Index(n) == n % Base
\* position of the basis function (i, j, k) among nsig widths and nv shapes
Flat(i, j, k, nsig, nv) == (i * nsig + j) * nv + k
Unflat(n, nsig, nv) == <<n \div (nsig * nv), (n % (nsig * nv)) \div nv, n % nv>>

SetSeq(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>>
                         ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z
                              IN <<x>> \o F(T \ {x})
             IN F(S)
MaxOf(s) == LET S == {s[i] : i \in 1..Len(s)} IN CHOOSE x \in S : \A y \in S : y <= x
DoPackLin(cs) == [r \in 1..Len(cs.v) |->
                    [i \in 1..Len(cs.v[r]) |-> SetSeq(LinBytes(cs.v[r][i], MaxOf(cs.v[r])))]]
DoPackLog(cs) == [r \in 1..Len(cs.j) |->
                    [i \in 1..Len(cs.j[r]) |-> IF cs.j[r][i] < 0 THEN <<0>>        \* a zero
                                               ELSE SetSeq(LogBytes(cs.j[r][i]))]]
DoSparse(cs) == [i \in 1..Len(cs.cb) |->
                   LET n == Pack(cs.cb[i][1], cs.cb[i][2])
                   IN [n |-> n, c |-> Coef(n), b |-> Index(n), f |-> Unflat(Index(n), cs.nsig, cs.nv)]]
=============================================================================
