------------------------------- MODULE QpDist -------------------------------
(***************************************************************************)
(* What the representations of qp mean.  One distribution is given by the  *)
(* integers of its representation; every function of it is a rational.     *)
(* Where the mathematical function is not single valued (the pdf of a      *)
(* histogram at an edge, the ppf at a plateau of the cdf) the value is the *)
(* pair of bounds <<lo, hi>>.                                              *)
(***************************************************************************)
EXTENDS QpRat, FiniteSets

(******************************* histograms ********************************)
\* e: increasing edges (n+1 integers), c: non-negative contents (n integers)
HistArea(e, c) == LET F(i) == c[i] * (e[i+1] - e[i]) IN SumI(F, Len(c))

HistDens(e, c, i) == IF i < 1 \/ i > Len(c) THEN RZero ELSE R(c[i], HistArea(e, c))

\* number of edges that are <= x,  number of edges that are < x
NumLe(e, x) == Cardinality({i \in 1..Len(e) : RLe(RI(e[i]), x)})
NumLt(e, x) == Cardinality({i \in 1..Len(e) : RLt(RI(e[i]), x)})

HistPdf(e, c, x) ==
   LET a == HistDens(e, c, NumLt(e, x))
       b == HistDens(e, c, NumLe(e, x))
   IN <<RMin(a, b), RMax(a, b)>>

\* cumulative content at the edges, as integers over HistArea
HistCum(e, c) == [k \in 1..Len(e) |->
                    LET F(i) == c[i] * (e[i+1] - e[i]) IN SumI(F, k - 1)]

\* a continuous piecewise linear function through (xs[k], ys[k]), constant outside:
\* xs is a sequence of rationals, increasing, ys a sequence of rationals
PLin(xs, ys, x) ==
   LET n == Len(xs)
       k == Cardinality({i \in 1..n : RLe(xs[i], x)})
   IN IF k = 0 THEN ys[1]
      ELSE IF k = n THEN ys[n]
      ELSE RAdd(ys[k], RMul(RSub(ys[k+1], ys[k]),
                            RDiv(RSub(x, xs[k]), RSub(xs[k+1], xs[k]))))

\* the inverse of the non-decreasing piecewise linear function, as bounds
PInv(xs, ys, q) ==
   LET n == Len(xs)
       \* last index with ys < q, first index with ys > q
       lo == Cardinality({i \in 1..n : RLt(ys[i], q)})
       hi == n - Cardinality({i \in 1..n : RLt(q, ys[i])}) + 1
       Solve(k) == RAdd(xs[k], RMul(RSub(xs[k+1], xs[k]),
                                    RDiv(RSub(q, ys[k]), RSub(ys[k+1], ys[k]))))
   IN <<IF lo = 0 THEN xs[1] ELSE IF lo = n THEN xs[n] ELSE Solve(lo),
        IF hi > n THEN xs[n] ELSE IF hi = 1 THEN xs[1] ELSE Solve(hi - 1)>>

HistX(e) == [k \in 1..Len(e) |-> RI(e[k])]
HistY(e, c) == [k \in 1..Len(e) |-> R(HistCum(e, c)[k], HistArea(e, c))]
HistCdf(e, c, x) == PLin(HistX(e), HistY(e, c), x)
HistPpf(e, c, q) == IF q = RZero THEN <<RI(e[1]), RI(e[1])>>
                    ELSE IF q = ROne THEN <<RI(e[Len(e)]), RI(e[Len(e)])>>
                    ELSE PInv(HistX(e), HistY(e, c), q)
HistMoment(e, c, n) ==
   LET F(i) == RMul(R(c[i] * (e[i+1] - e[i]), HistArea(e, c)), RPow(R(e[i] + e[i+1], 2), n))
   IN SumR(F, Len(c))
\* the mean of the density (not of the bin centres)
HistMean(e, c) ==
   LET F(i) == RMul(R(c[i], HistArea(e, c)), R(e[i+1] * e[i+1] - e[i] * e[i], 2))
   IN SumR(F, Len(c))

(************************** interpolated densities *************************)
\* xs: increasing grid (n integers), ys: non-negative values (n integers)
InterpArea2(xs, ys) == LET F(i) == (ys[i] + ys[i+1]) * (xs[i+1] - xs[i])
                       IN SumI(F, Len(xs) - 1)              \* twice the area
InterpPdf(xs, ys, x) ==
   LET n == Len(xs)
       Y == [k \in 1..n |-> R(2 * ys[k], InterpArea2(xs, ys))]
       v == PLin(HistX(xs), Y, x)
   IN IF RLt(x, RI(xs[1])) \/ RLt(RI(xs[n]), x) THEN <<RZero, RZero>>
      ELSE IF x = RI(xs[1]) \/ x = RI(xs[n]) THEN <<RZero, v>>     \* a jump at the ends
      ELSE <<v, v>>
InterpCum2(xs, ys) == [k \in 1..Len(xs) |->
      LET F(i) == (ys[i] + ys[i+1]) * (xs[i+1] - xs[i]) IN SumI(F, k - 1)]
InterpY(xs, ys) == [k \in 1..Len(xs) |-> R(InterpCum2(xs, ys)[k], InterpArea2(xs, ys))]
InterpCdf(xs, ys, x) == PLin(HistX(xs), InterpY(xs, ys), x)
InterpPpf(xs, ys, q) == IF q = RZero THEN <<RI(xs[1]), RI(xs[1])>>
                        ELSE IF q = ROne THEN <<RI(xs[Len(xs)]), RI(xs[Len(xs)])>>
                        ELSE PInv(HistX(xs), InterpY(xs, ys), q)
InterpMoment(xs, ys, n) ==
   LET F(i) == RMul(R(xs[i+1] - xs[i], InterpArea2(xs, ys)),
                    RAdd(RScale(ys[i], RPow(RI(xs[i]), n)), RScale(ys[i+1], RPow(RI(xs[i+1]), n))))
   IN SumR(F, Len(xs) - 1)
\* A deliberate deviation of the code (a recorded finding): on a common grid the cdf starts
\* with half of y[1] times the width of the first cell, not with 0.
InterpDevY(xs, ys) == [InterpY(xs, ys) EXCEPT ![1] = R(ys[1] * (xs[2] - xs[1]), InterpArea2(xs, ys))]
InterpDevCdf(xs, ys, x) == IF RLt(x, RI(xs[1])) THEN RZero ELSE PLin(HistX(xs), InterpDevY(xs, ys), x)
InterpDevPpf(xs, ys, q) == IF RLt(q, InterpDevY(xs, ys)[1]) THEN <<RI(xs[1]), RI(xs[1])>>
                           ELSE PInv(HistX(xs), InterpDevY(xs, ys), q)

(******************************** quantiles ********************************)
\* qs: increasing rationals in [0, 1], ls: increasing rationals
QuantPad(qs, ls) ==
   LET n == Len(qs)
       padlo == RLt(RZero, qs[1])
       padhi == RLt(qs[n], ROne)
       lo == RSub(ls[1], RMul(qs[1], RDiv(RSub(ls[2], ls[1]), RSub(qs[2], qs[1]))))
       hi == RAdd(ls[n], RMul(RSub(ROne, qs[n]), RDiv(RSub(ls[n], ls[n-1]), RSub(qs[n], qs[n-1]))))
   IN [q |-> (IF padlo THEN <<RZero>> ELSE <<>>) \o qs \o (IF padhi THEN <<ROne>> ELSE <<>>),
       l |-> (IF padlo THEN <<lo>> ELSE <<>>) \o ls \o (IF padhi THEN <<hi>> ELSE <<>>)]
\* half-way between neighbouring locations, and the difference quotients
QuantMids(p) == [i \in 1..(Len(p.q) - 1) |-> RMul(R(1, 2), RAdd(p.l[i], p.l[i+1]))]
QuantDers(p) == [i \in 1..(Len(p.q) - 1) |-> RDiv(RSub(p.q[i+1], p.q[i]), RSub(p.l[i+1], p.l[i]))]
\* the piecewise linear reconstruction
QuantPdfLin(p, x) ==
   LET m == QuantMids(p)
       d == QuantDers(p)
       n == Len(m)
       v == PLin(m, d, x)
   IN IF RLt(x, m[1]) \/ RLt(m[n], x) THEN <<RZero, RZero>>
      ELSE IF x = m[1] \/ x = m[n] THEN <<RZero, v>>
      ELSE <<v, v>>

(*************************** Gaussian mixtures *****************************)
\* w: non-negative integer weights, t: values of each component times 10^7
MixSum(w, t) ==
   LET W(k) == w[k]
       F(k) == w[k] * (t[k] \div 1000)
       G(k) == w[k] * (t[k] % 1000)
       tot == SumI(W, Len(w))
       hi == SumI(F, Len(w))
       lo == SumI(G, Len(w))
   IN \* the weighted mean in units of 10^-7, as quotient and remainder over tot
      <<(hi \div tot) * 1000 + (((hi % tot) * 1000 + lo) \div tot), tot>>

(**************************** cubic polynomials ****************************)
\* a: coefficients (a[1] + a[2] x + a[3] x^2 + a[4] x^3), on [lo, hi]
PolyAt(a, x) == LET F(k) == RScale(a[k], RPow(x, k - 1)) IN SumR(F, Len(a))
PolyInt(a, lo, hi) ==
   LET F(k) == RMul(R(a[k], k), RSub(RPow(hi, k), RPow(lo, k))) IN SumR(F, Len(a))
PolyPdf(a, lo, hi, x) == RDiv(PolyAt(a, x), PolyInt(a, lo, hi))
PolyCdf(a, lo, hi, x) == RDiv(PolyInt(a, lo, x), PolyInt(a, lo, hi))

(******************************* uniform, used as a scipy distribution *****)
UniPdf(a, b, x) == IF RLt(x, RI(a)) \/ RLt(RI(b), x) THEN <<RZero, RZero>>
                   ELSE IF x = RI(a) \/ x = RI(b) THEN <<RZero, R(1, b - a)>>
                   ELSE <<R(1, b - a), R(1, b - a)>>
UniCdf(a, b, x) == IF RLe(x, RI(a)) THEN RZero ELSE IF RLe(RI(b), x) THEN ROne
                   ELSE RDiv(RSub(x, RI(a)), RI(b - a))
=============================================================================
