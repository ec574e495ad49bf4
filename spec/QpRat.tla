------------------------------- MODULE QpRat -------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A rational is a pair <<num, den>> in lowest *)
(* terms with den > 0.  TLC integers have 32 bits and TLC refuses to       *)
(* overflow, so every operation cancels before it multiplies.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

AbsI(a) == IF a < 0 THEN -a ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

R(n, d) == LET g == Gcd(AbsI(n), AbsI(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN <<s * (n \div g), s * (d \div g)>>
RI(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>

RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == R(a[1], b[2])
                  y == R(b[1], a[2])
              IN <<x[1] * y[1], x[2] * y[2]>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RScale(k, a) == RMul(RI(k), a)

RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b) == RSign(RSub(a, b)) < 0
RLe(a, b) == RSign(RSub(a, b)) <= 0
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RAbs(a) == <<AbsI(a[1]), a[2]>>

RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN ROne ELSE RMul(a, RPow(a, n - 1))

RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)

\* sums of F(1) .. F(n)
RECURSIVE SumI(_, _)
SumI(F(_), n) == IF n = 0 THEN 0 ELSE SumI(F, n - 1) + F(n)
RECURSIVE SumR(_, _)
SumR(F(_), n) == IF n = 0 THEN RZero ELSE RAdd(SumR(F, n - 1), F(n))

MapR(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

\* insertion sort of a sequence of rationals
RECURSIVE RInsert(_, _)
RInsert(x, s) == IF s = <<>> THEN <<x>>
                 ELSE IF RLe(x, s[1]) THEN <<x>> \o s
                 ELSE <<s[1]>> \o RInsert(x, Tail(s))
RECURSIVE RSort(_)
RSort(s) == IF s = <<>> THEN <<>> ELSE RInsert(s[1], RSort(Tail(s)))
=============================================================================
