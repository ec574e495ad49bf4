------------------------------- MODULE QpStat -------------------------------
(***************************************************************************)
(* What the metrics of qp mean: exact rational definitions of the metrics  *)
(* of ensembles, of the goodness of fit statistics and of the point        *)
(* statistics.  Logarithms are kept symbolic: a sequence of                *)
(* <<coefficient, argument>> stands for the sum of coef * ln(argument).    *)
(***************************************************************************)
EXTENDS QpDist

(************************** the evaluation grid ****************************)
\* m points from lo to hi (rationals)
GridRes(lo, hi, m) == RDiv(RSub(hi, lo), RI(m - 1))
GridPts(lo, hi, m) == [i \in 1..m |-> RAdd(lo, RScale(i - 1, GridRes(lo, hi, m)))]
\* the grid point in whose cell t lies: cells are centred on the points; bounds for ties
NearLo(lo, hi, m, t) ==
   LET g == GridPts(lo, hi, m)
       h == RMul(R(1, 2), GridRes(lo, hi, m))
   IN CHOOSE i \in 1..m : /\ RLe(RSub(t, g[i]), h)
                          /\ \A j \in 1..(i-1) : ~RLe(RSub(t, g[j]), h)
NearHi(lo, hi, m, t) ==
   LET g == GridPts(lo, hi, m)
       h == RMul(R(1, 2), GridRes(lo, hi, m))
       S == {i \in 1..m : RLe(RSub(g[i], t), h) /\ RLe(RSub(t, g[i]), h)}
   IN CHOOSE i \in S : \A j \in S : j <= i

(*************************** distribution metrics **************************)
\* p, q: sequences of pdf values on the grid; res its spacing; g its points
Moment(p, g, n, res) == LET F(i) == RMul(p[i], RPow(g[i], n)) IN RMul(res, SumR(F, Len(p)))
\* coefficient, p and q of each term:  sum  res * p (ln p - ln q)
KldTerms(p, q, res) == [i \in 1..Len(p) |-> <<RMul(res, p[i]), p[i], q[i]>>]
Rmse2(p, q) == LET F(i) == RPow(RSub(p[i], q[i]), 2) IN RDiv(SumR(F, Len(p)), RI(Len(p)))
BrierRow(p, k) == LET F(i) == RPow(RSub(p[i], IF i = k THEN ROne ELSE RZero), 2) IN SumR(F, Len(p))
\* the CDE loss of one distribution: the integral of p^2 (trapezoid) and p at the nearest point
CdeTerm1(p, g) == LET F(i) == RMul(RMul(R(1, 2), RSub(g[i+1], g[i])),
                                   RAdd(RPow(p[i], 2), RPow(p[i+1], 2)))
                  IN SumR(F, Len(p) - 1)
Nearest(g, t) == CHOOSE i \in 1..Len(g) :
                    \A j \in 1..Len(g) : RLt(RAbs(RSub(g[i], t)), RAbs(RSub(g[j], t)))
                                      \/ (RAbs(RSub(g[i], t)) = RAbs(RSub(g[j], t)) /\ i <= j)
MeanR(s) == LET F(i) == s[i] IN RDiv(SumR(F, Len(s)), RI(Len(s)))

(******************************* statistics ********************************)
\* s: sorted sequence, p rational in [0, 1]: the linear quantile of numpy
Quantile(s, p) ==
   LET n == Len(s)
       pos == RScale(n - 1, p)
       k == pos[1] \div pos[2]
       f == RSub(pos, RI(k))
   IN IF k + 1 >= n THEN s[n] ELSE RAdd(s[k+1], RMul(f, RSub(s[k+2], s[k+1])))
Median(s) == Quantile(s, R(1, 2))
\* the neighbouring order statistics of the quantile p, w places wide
Bracket(s, p, w) ==
   LET n == Len(s)
       pos == RScale(n, p)
       k == pos[1] \div pos[2]
   IN <<s[MaxI(1, MinI(n, k + 1 - w))], s[MaxI(1, MinI(n, k + 1 + w))]>>

\* a digest keeps equal values together and interpolates between the different ones: the quantile p lies
\* between the values next to the ones at its rank
DBracket(s, p) ==
   LET b == Bracket(s, p, 1)
       B == {i \in 1..Len(s) : RLt(s[i], b[1])}
       A == {i \in 1..Len(s) : RLt(b[2], s[i])}
   IN <<IF B = {} THEN s[1] ELSE s[CHOOSE i \in B : \A j \in B : j <= i],
        IF A = {} THEN s[Len(s)] ELSE s[CHOOSE i \in A : \A j \in A : i <= j]>>
Mult(s) == LET M == {Cardinality({j \in 1..Len(s) : s[j] = s[i]}) : i \in 1..Len(s)} IN CHOOSE m \in M : \A x \in M : x <= m

\* F: the cdf values of the sorted samples
KS(F) == LET n == Len(F)
             D(i) == RMax(RSub(R(i, n), F[i]), RSub(F[i], R(i - 1, n)))
             RECURSIVE Best(_)
             Best(i) == IF i = 0 THEN RI(-1) ELSE RMax(D(i), Best(i - 1))
         IN Best(n)
\* CvM = 1 / 12n + the sum of the squares of these
CvMTerms(F) == LET n == Len(F) IN [i \in 1..n |-> RSub(R(2 * i - 1, 2 * n), F[i])]
\* AD = -n - sum (2i-1)/n (ln F(i) + ln (1 - F(n+1-i)))
ADTerms(F) == LET n == Len(F)
              IN [i \in 1..(2 * n) |->
                    IF i <= n THEN <<R(-(2 * i - 1), n), F[i]>>
                    ELSE <<R(-(2 * (i - n) - 1), n), RSub(ROne, F[n + 1 - (i - n)])>>]

(***************************** point statistics ****************************)
Ez(e, r) == [i \in 1..Len(e) |-> RDiv(RSub(e[i], r[i]), RAdd(ROne, r[i]))]
Iqr(s) == RSub(Quantile(s, R(3, 4)), Quantile(s, R(1, 4)))          \* s sorted
Bias(s) == Median(s)
Mad(s) == LET m == Median(s) IN Median(RSort([i \in 1..Len(s) |-> RAbs(RSub(s[i], m))]))
\* the cut of the outliers, max(6/100, 3 * iqr / 1.349), compared exactly
Above(x, iqr) == RLt(R(6, 100), x) /\ RLt(RMul(R(3000, 1349), iqr), x)
AtLeast(x, iqr) == RLe(R(6, 100), x) /\ RLe(RMul(R(3000, 1349), iqr), x)
OutCount(s) == <<Cardinality({i \in 1..Len(s) : Above(RAbs(s[i]), Iqr(s))}),
                 Cardinality({i \in 1..Len(s) : AtLeast(RAbs(s[i]), Iqr(s))})>>
\* bounds of the MAD of a digest: the median is only known within its bracket
MadBracket(s) ==
   LET m == DBracket(s, R(1, 2))
       gap == RSub(m[2], m[1])
       d == RSort([i \in 1..Len(s) |-> RAbs(RSub(s[i], m[1]))])
       b == Bracket(d, R(1, 2), 3 + Mult(s))
   IN <<RMax(RZero, RSub(b[1], gap)), RAdd(b[2], gap)>>
\* bounds of the IQR of a digest
IqrBracket(s) == LET a == DBracket(s, R(1, 4))
                     b == DBracket(s, R(3, 4))
                 IN <<RMax(RZero, RSub(b[1], a[2])), RSub(b[2], a[1])>>
OutBracket(s) == LET q == IqrBracket(s)
                 IN <<Cardinality({i \in 1..Len(s) : Above(RAbs(s[i]), q[2])}),
                      Cardinality({i \in 1..Len(s) : AtLeast(RAbs(s[i]), q[1])})>>
=============================================================================
