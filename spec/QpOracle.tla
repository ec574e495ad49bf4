------------------------------ MODULE QpOracle ------------------------------
(***************************************************************************)
(* TLC as the oracle: reads cases (one JSON record a line), evaluates the  *)
(* definitions of the specification on each, one step a case, and prints   *)
(* what the implementation has to give.                                    *)
(***************************************************************************)
EXTENDS QpStat, QpCode, QpTable, TLC, Json, IOUtils
VARIABLE k

Cases == ndJsonDeserialize(IOEnv.CASES)
Rat(x) == R(x[1], x[2])
Rats(s) == [i \in 1..Len(s) |-> Rat(s[i])]
Opt(cs, f) == IF f \in DOMAIN cs THEN cs[f] ELSE <<>>
MapS(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

DoHist(cs) ==
   [r \in 1..Len(cs.c) |->
      LET P(x) == HistPdf(cs.e, cs.c[r], x)
          C(x) == HistCdf(cs.e, cs.c[r], x)
          Q(q) == HistPpf(cs.e, cs.c[r], q)
          M(n) == HistMoment(cs.e, cs.c[r], n)
          X == Rats(Opt(cs, "x"))
      IN [pdf |-> MapS(P, X), cdf |-> MapS(C, X), ppf |-> MapS(Q, Rats(Opt(cs, "q"))),
          mom |-> MapS(M, Opt(cs, "n"))]]

DoInterp(cs) ==
   [r \in 1..Len(cs.ys) |->
      LET xs == IF Len(cs.xs) = 1 THEN cs.xs[1] ELSE cs.xs[r]
          ys == cs.ys[r]
          P(x) == InterpPdf(xs, ys, x)
          C(x) == InterpCdf(xs, ys, x)
          Q(q) == InterpPpf(xs, ys, q)
          DC(x) == InterpDevCdf(xs, ys, x)
          DQ(q) == InterpDevPpf(xs, ys, q)
          M(n) == InterpMoment(xs, ys, n)
          X == Rats(Opt(cs, "x"))
          QQ == Rats(Opt(cs, "q"))
      IN [pdf |-> MapS(P, X), cdf |-> MapS(C, X), ppf |-> MapS(Q, QQ),
          dcdf |-> MapS(DC, X), dppf |-> MapS(DQ, QQ), mom |-> MapS(M, Opt(cs, "n")),
          area |-> R(InterpArea2(xs, ys), 2)]]

DoQuant(cs) ==
   [r \in 1..Len(cs.ls) |->
      LET p == QuantPad(Rats(cs.qs), [i \in 1..Len(cs.ls[r]) |-> RI(cs.ls[r][i])])
          P(x) == QuantPdfLin(p, x)
      IN [q |-> p.q, l |-> p.l, m |-> QuantMids(p), d |-> QuantDers(p),
          pdf |-> MapS(P, Rats(Opt(cs, "x")))]]

DoMix(cs) ==   \* t: rows, points, components
   [r \in 1..Len(cs.w) |-> [j \in 1..Len(cs.t[r]) |-> MixSum(cs.w[r], cs.t[r][j])]]

DoPoly(cs) ==
   [r \in 1..Len(cs.a) |->
      LET lo == Rat(cs.lo[r])
          hi == Rat(cs.hi[r])
          P(x) == PolyPdf(cs.a[r], lo, hi, x)
          C(x) == PolyCdf(cs.a[r], lo, hi, x)
          I(x) == PolyAt(cs.a[r], x)
          X == Rats(cs.x[r])
      IN [val |-> MapS(I, X), pdf |-> MapS(P, X), cdf |-> MapS(C, X), norm |-> PolyInt(cs.a[r], lo, hi)]]

\* metrics of histogram ensembles on a grid that does not touch an edge
HistOn(e, c, g) == [i \in 1..Len(g) |-> HistPdf(e, c, g[i])[2]]
DoMetric(cs) ==
   LET lo == Rat(cs.lo)
       hi == Rat(cs.hi)
       g == GridPts(lo, hi, cs.m)
       res == GridRes(lo, hi, cs.m)
   IN [r \in 1..Len(cs.c) |->
         LET p == HistOn(cs.e, cs.c[r], g)
             q == IF Len(Opt(cs, "d")) = 0 THEN <<>> ELSE HistOn(cs.f, cs.d[r], g)
             t == IF Len(Opt(cs, "t")) = 0 THEN RZero ELSE Rat(cs.t[r])
             M(n) == Moment(p, g, n, res)
         IN [mom |-> MapS(M, Opt(cs, "n")),
             kld |-> IF q = <<>> THEN <<>> ELSE KldTerms(p, q, res),
             rmse2 |-> IF q = <<>> THEN RZero ELSE Rmse2(p, q),
             brier |-> IF Opt(cs, "t") = <<>> THEN <<>>
                       ELSE <<BrierRow(p, NearLo(lo, hi, cs.m, t)), BrierRow(p, NearHi(lo, hi, cs.m, t))>>,
             cde |-> IF Opt(cs, "t") = <<>> THEN <<>>
                     ELSE <<CdeTerm1(p, g), p[Nearest(g, t)]>>,
             out |-> IF Opt(cs, "ul") = <<>> THEN RZero
                     ELSE RAdd(HistCdf(cs.e, cs.c[r], Rat(cs.ul[1])),
                               RSub(ROne, HistCdf(cs.e, cs.c[r], Rat(cs.ul[2]))))]]

\* samples x of each row against the reference histogram of the row (or the only one)
DoGof(cs) ==
   [r \in 1..Len(cs.x) |->
      LET c == IF Len(cs.c) = 1 THEN cs.c[1] ELSE cs.c[r]
          s == RSort(Rats(cs.x[r]))
          F == [i \in 1..Len(s) |-> HistCdf(cs.e, c, s[i])]
      IN [ks |-> KS(F), cvm |-> CvMTerms(F), ad |-> ADTerms(F)]]

DoPit(cs) ==
   LET s == [r \in 1..Len(cs.c) |-> HistCdf(cs.e, cs.c[r], Rat(cs.t[r]))]
       o == RSort(s)
       G == Rats(cs.g)
       Q(p) == Quantile(o, p)
   IN [samp |-> s, quant |-> MapS(Q, G), ks |-> KS(o), cvm |-> CvMTerms(o),
       brack |-> [i \in 1..Len(G) |-> DBracket(o, G[i])]]

DoPoint(cs) ==
   LET ez == Ez(Rats(cs.est), Rats(cs.ref))
       s == RSort(ez)
   IN [ez |-> ez, bias |-> Bias(s), iqr |-> RMul(R(1000, 1349), Iqr(s)),
       mad |-> RMul(R(14826, 10000), Mad(s)), out |-> OutCount(s), n |-> Len(s),
       dbias |-> DBracket(s, R(1, 2)),
       diqr |-> MapS(LAMBDA x : RMul(R(1000, 1349), x), IqrBracket(s)),
       dmad |-> MapS(LAMBDA x : RMul(R(14826, 10000), x), MadBracket(s)),
       dout |-> OutBracket(s)]

\* queries <<row, value>> of a table
DoTable(cs) ==
   LET Own(t, r) == IF Len(t) = 1 THEN t[1] ELSE t[r]
       At(qq) == IF cs.how = "step" THEN StepAt(Own(cs.e, qq[1]), Own(cs.c, qq[1]), Own(cs.d, qq[1]), Rat(qq[2]))
                ELSE LineAt(Own(cs.e, qq[1]), Own(cs.c, qq[1]), cs.fill[1], cs.fill[2], Rat(qq[2]))
   IN MapS(At, cs.at)
DoProfile(cs) == [b \in 1..(Len(cs.e) - 1) |-> ProfileBin(cs.e, Rats(cs.x), cs.y, b)]

Eval(cs) ==
   CASE cs.op = "hist" -> DoHist(cs)
     [] cs.op = "interp" -> DoInterp(cs)
     [] cs.op = "quant" -> DoQuant(cs)
     [] cs.op = "mix" -> DoMix(cs)
     [] cs.op = "poly" -> DoPoly(cs)
     [] cs.op = "metric" -> DoMetric(cs)
     [] cs.op = "gof" -> DoGof(cs)
     [] cs.op = "pit" -> DoPit(cs)
     [] cs.op = "point" -> DoPoint(cs)
     [] cs.op = "table" -> DoTable(cs)
     [] cs.op = "profile" -> DoProfile(cs)
     [] cs.op = "packlin" -> DoPackLin(cs)
     [] cs.op = "packlog" -> DoPackLog(cs)
     [] cs.op = "sparse" -> DoSparse(cs)

Init == k = 0
Next == /\ k < Len(Cases)
        /\ k' = k + 1
        /\ PrintT("@@" \o ToJson(Eval(Cases[k'])))
Spec == Init /\ [][Next]_k
Done == TRUE
=============================================================================
