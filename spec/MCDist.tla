------------------------------- MODULE MCDist -------------------------------
(***************************************************************************)
(* The denotations of QpDist are coherent probability laws: exhaustively,  *)
(* for every small grid and contents.                                      *)
(***************************************************************************)
EXTENDS QpDist, TLC
CONSTANTS MaxX, MaxC, N        \* grid coordinates 0..MaxX, contents 0..MaxC, N cells
VARIABLES kind, g, c

Grids(n) == {s \in [1..n -> 0..MaxX] : \A i \in 1..(n-1) : s[i] < s[i+1]}
Init == /\ kind \in {"hist", "interp", "quant"}
        /\ g = <<>> /\ c = <<>>
Pick == /\ g = <<>>
        /\ \/ /\ kind = "hist"
              /\ g' \in Grids(N + 1)
              /\ c' \in {s \in [1..N -> 0..MaxC] : \E i \in 1..N : s[i] > 0}
           \/ /\ kind = "interp"
              /\ g' \in Grids(N)
              /\ c' \in {s \in [1..N -> 0..MaxC] : \E i \in 1..N : s[i] > 0}
           \/ /\ kind = "quant"          \* c: quantiles over MaxX
              /\ g' \in Grids(N)
              /\ c' \in Grids(N)
        /\ UNCHANGED kind
Next == Pick
Spec == Init /\ [][Next]_<<kind, g, c>>

Halves == {R(i, 2) : i \in -1..(2 * MaxX + 1)}
Quarters == {R(i, 4) : i \in 0..4}

HistOk ==
   LET n == Len(c) IN
   /\ HistCdf(g, c, RI(g[1])) = RZero
   /\ HistCdf(g, c, RI(g[n+1])) = ROne
   /\ \A x, y \in Halves : RLe(x, y) => RLe(HistCdf(g, c, x), HistCdf(g, c, y))
   /\ \A q \in Quarters : LET p == HistPpf(g, c, q) IN
        /\ RLe(p[1], p[2])
        /\ q = RZero \/ HistCdf(g, c, p[1]) = q
        /\ q = ROne \/ HistCdf(g, c, p[2]) = q \/ q = RZero
   /\ \A x \in Halves : LET p == HistPdf(g, c, x) IN RLe(RZero, p[1]) /\ RLe(p[1], p[2])
   \* the integral of the density is one, and the difference of the cdf is the density inside a bin
   /\ LET F(i) == RScale(g[i+1] - g[i], HistDens(g, c, i)) IN SumR(F, n) = ROne
   /\ \A i \in 1..n : RSub(HistCdf(g, c, RI(g[i+1])), HistCdf(g, c, RI(g[i])))
                        = RScale(g[i+1] - g[i], HistDens(g, c, i))
   /\ HistMoment(g, c, 0) = ROne
   /\ HistMoment(g, c, 1) = HistMean(g, c)
   /\ RLe(RZero, RSub(HistMoment(g, c, 2), RPow(HistMean(g, c), 2)))
   \* normalising again changes nothing: contents times any factor
   /\ \A k \in 2..3 : \A x \in Halves : HistPdf(g, [i \in 1..n |-> k * c[i]], x) = HistPdf(g, c, x)
InterpOk ==
   LET n == Len(c) IN
   InterpArea2(g, c) = 0 \/
   /\ InterpCdf(g, c, RI(g[1])) = RZero
   /\ InterpCdf(g, c, RI(g[n])) = ROne
   /\ \A x, y \in Halves : RLe(x, y) => /\ RLe(InterpCdf(g, c, x), InterpCdf(g, c, y))
                                        /\ RLe(InterpDevCdf(g, c, x), InterpDevCdf(g, c, y))
   /\ \A q \in Quarters : LET p == InterpPpf(g, c, q) IN
        /\ RLe(p[1], p[2])
        /\ q = RZero \/ InterpCdf(g, c, p[1]) = q
   \* the deviation is confined to the first cell and vanishes when the density starts at zero
   /\ \A x \in Halves : RLe(RI(g[2]), x) => InterpDevCdf(g, c, x) = InterpCdf(g, c, x)
   /\ c[1] = 0 => \A x \in Halves : InterpDevCdf(g, c, x) = InterpCdf(g, c, x)
   /\ InterpMoment(g, c, 0) = ROne
   /\ \A x \in Halves : RLe(RZero, InterpPdf(g, c, x)[1])
QuantOk ==
   LET qs == [i \in 1..Len(c) |-> R(c[i], MaxX)]
       ls == [i \in 1..Len(g) |-> RI(g[i])]
       p == QuantPad(qs, ls)
       n == Len(p.q)
   IN /\ p.q[1] = RZero /\ p.q[n] = ROne
      /\ \A i \in 1..(n-1) : RLt(p.q[i], p.q[i+1]) /\ RLt(p.l[i], p.l[i+1])
      /\ QuantPad(p.q, p.l) = p                       \* a complete set is left as it is
      /\ LET F(i) == RMul(QuantDers(p)[i], RSub(p.l[i+1], p.l[i])) IN SumR(F, n - 1) = ROne
      /\ \A i \in 1..(n-1) : QuantPdfLin(p, QuantMids(p)[i])[2] = QuantDers(p)[i]
Coherent == g = <<>> \/ (kind = "hist" /\ HistOk) \/ (kind = "interp" /\ InterpOk) \/ (kind = "quant" /\ QuantOk)
=============================================================================
