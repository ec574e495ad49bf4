------------------------------ MODULE QpTable -------------------------------
(***************************************************************************)
(* Tables with a row for each distribution, and values looked up in them:  *)
(* steps (with a slope inside of each bin), straight lines between points, *)
(* and the mean and spread of the data in the bins of a profile.           *)
(***************************************************************************)
EXTENDS QpDist

\* bins e (n+1 integers), contents c and slopes d (n integers): bounds at an edge
StepIn(e, c, d, k, x) == IF k < 1 \/ k > Len(c) THEN RZero
                         ELSE RAdd(RI(c[k]), RScale(d[k], RSub(x, RI(e[k]))))
StepAt(e, c, d, x) == LET a == StepIn(e, c, d, NumLt(e, x), x)
                          b == StepIn(e, c, d, NumLe(e, x), x)
                      IN <<RMin(a, b), RMax(a, b)>>
\* lines through (e[k], c[k]) within the first and the last point, otherwise what was asked for
LineAt(e, c, lo, hi, x) == LET v == IF RLt(x, RI(e[1])) THEN RI(lo)
                                    ELSE IF RLt(RI(e[Len(e)]), x) THEN RI(hi)
                                    ELSE PLin(HistX(e), [k \in 1..Len(c) |-> RI(c[k])], x)
                           IN <<v, v>>

\* the data (xs, ys) in the k-th bin: how many, their mean and their variance
InBin(e, xs, k) == {i \in 1..Len(xs) : RLt(RI(e[k]), xs[i]) /\ RLt(xs[i], RI(e[k + 1]))}
RECURSIVE SumOver(_, _)
SumOver(S, ys) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN ys[i] + SumOver(S \ {i}, ys)
ProfileBin(e, xs, ys, k) ==
   LET S == InBin(e, xs, k)
       n == Cardinality(S)
       m == R(SumOver(S, ys), n)
       sq == SumOver(S, [i \in 1..Len(ys) |-> ys[i] * ys[i]])
   IN IF n = 0 THEN [n |-> 0, mean |-> RZero, var |-> RZero]
      ELSE [n |-> n, mean |-> m, var |-> RSub(R(sq, n), RMul(m, m))]
=============================================================================
