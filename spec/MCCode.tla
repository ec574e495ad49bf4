------------------------------- MODULE MCCode -------------------------------
(***************************************************************************)
(* The codecs lose no more than they may, exhaustively.                    *)
(***************************************************************************)
EXTENDS QpCode, TLC
CONSTANTS MaxM, Coefs, Bases, NS, NV, NM
MCCoefs == {-32000, -3, -1, 0, 1, 255, 32000, 32767}
VARIABLES what, a, b
Init == /\ what \in {"lin", "log", "pair", "flat"} /\ a = -1 /\ b = -1
Next == /\ a = -1
        /\ \/ what = "lin" /\ a' \in 1..MaxM /\ b' \in 0..MaxM /\ b' <= a'
           \/ what = "log" /\ a' \in 0..(U * 260) /\ b' = 0
           \/ what = "pair" /\ a' = 0 /\ b' \in {Pack(c, x) : c \in Coefs, x \in Bases}
           \/ what = "flat" /\ a' = 0 /\ b' \in 0..(NM * NS * NV - 1)
        /\ UNCHANGED what
Spec == Init /\ [][Next]_<<what, a, b>>
\* decoding is within half a step: |p m - 255 v| <= m / 2, the maximum and zero are exact, order is kept
Lin == \A p \in LinBytes(b, a) :
          /\ 2 * (p * a - 255 * b) <= a /\ 2 * (255 * b - p * a) <= a
          /\ b = a => p = 255
          /\ b = 0 => p = 0
          /\ \A p2 \in LinBytes(b - 1, a) : b > 0 => p2 <= p
LinTotal == LinBytes(b, a) # {}
Log == /\ LogBytes(a) # {}
       /\ a = 0 => LogBytes(a) = {255}
       /\ a >= U * 256 => LogBytes(a) = {0}
       /\ \A p \in LogBytes(a) : \A p2 \in LogBytes(a + 1) : p2 <= p
Pair == Pack(Coef(b), Index(b)) = b /\ Index(b) \in 0..(Base - 1)
Unpair == \A c \in Coefs : \A x \in Bases : Coef(Pack(c, x)) = c /\ Index(Pack(c, x)) = x
FlatOk == LET f == Unflat(b, NS, NV)
          IN /\ Flat(f[1], f[2], f[3], NS, NV) = b
             /\ f[2] \in 0..(NS - 1) /\ f[3] \in 0..(NV - 1) /\ f[1] \in 0..(NM - 1)
Ok == a = -1 \/ CASE what = "lin" -> Lin /\ LinTotal
                  [] what = "log" -> Log
                  [] what = "pair" -> Pair /\ Unpair
                  [] what = "flat" -> FlatOk
=============================================================================
