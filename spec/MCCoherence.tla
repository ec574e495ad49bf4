---------------------------- MODULE MCCoherence ----------------------------
(***************************************************************************)
(* The tables of every small histogram (in the exact arithmetic of QpDist) *)
(* break no clause of QpCoherence, and every table with one entry changed  *)
(* breaks one: the clauses are neither too strong nor empty.               *)
(***************************************************************************)
EXTENDS QpDist, QpCoherence, TLC
CONSTANTS MaxX, MaxC, N
VARIABLES e, c, tab
vars == <<e, c, tab>>

S0 == 10000
Sc(r) == (S0 * r[1]) \div r[2]
Edges == {s \in [1..(N + 1) -> 0..MaxX] : \A i \in 1..N : s[i] < s[i + 1]}
Conts == {s \in [1..N -> 0..MaxC] : \A i \in 1..N : s[i] > 0}
Xs == [i \in 1..(2 * MaxX + 4) |-> R(2 * i - 3, 4)]
Qs == [i \in 1..5 |-> R(i - 1, 4)]
X(f) == [i \in 1..Len(Xs) |-> f[i]]
MAt(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

Table(ed, co) ==
  LET Cdf(x) == HistCdf(ed, co, x)
      Pdf(x) == HistPdf(ed, co, x)[1]
      Ppf(q) == HistPpf(ed, co, q)[1]
      cd == MAt(Cdf, Xs)
      ScS(s) == [i \in 1..Len(s) |-> Sc(s[i])]
      pp == MAt(Ppf, Qs)
      n == Len(Qs)
      bins == [i \in 1..(MaxX + 1) |-> RI(i - 1)]
      m1 == HistMoment(ed, co, 1)
      m2 == HistMoment(ed, co, 2)
      zero == [i \in 1..Len(Xs) |-> 0]
  IN [S |-> S0, tol |-> 4, endtol |-> 4, backtol |-> 40, isftol |-> 4, momtol |-> 40, parttol |-> 1, skip |-> <<>>, MS |-> S0,
      x |-> ScS(Xs), pdf |-> ScS(MAt(Pdf, Xs)), cdf |-> ScS(cd), sf |-> [i \in 1..Len(Xs) |-> Sc(RSub(ROne, cd[i]))],
      lpdf |-> zero, logpdf |-> zero, okpdf |-> zero, lcdf |-> zero, logcdf |-> zero, okcdf |-> zero,
      lsf |-> zero, logsf |-> zero, oksf |-> zero,
      q |-> ScS(Qs), ppf |-> ScS(pp), back |-> ScS(MAt(Cdf, pp)), dens |-> [i \in 1..n |-> S0],
      isf |-> [i \in 1..n |-> Sc(pp[n + 1 - i])], ppf1 |-> [i \in 1..n |-> Sc(pp[n + 1 - i])],
      low |-> S0 * ed[1], high |-> S0 * ed[N + 1],
      median |-> Sc(pp[3]), ppfhalf |-> Sc(Ppf(R(1, 2))), intlo |-> <<Sc(pp[2])>>, inthi |-> <<Sc(pp[4])>>,
      ppflo |-> <<Sc(Ppf(R(1, 4)))>>, ppfhi |-> <<Sc(Ppf(R(3, 4)))>>,
      integ |-> <<Sc(RSub(cd[5], cd[2]))>>, cdfa |-> <<Sc(cd[2])>>, cdfb |-> <<Sc(cd[5])>>,
      hist |-> [i \in 1..MaxX |-> Sc(RSub(Cdf(bins[i + 1]), Cdf(bins[i])))], hcdf |-> ScS(MAt(Cdf, bins)),
      grid |-> ScS(Xs), gpdf |-> ScS(MAt(Pdf, Xs)),
      mode |-> Sc(Xs[CHOOSE i \in 1..Len(Xs) : \A j \in 1..Len(Xs) : RLe(Pdf(Xs[j]), Pdf(Xs[i]))]),
      mean |-> Sc(m1), mom0 |-> S0, mom1 |-> Sc(m1), mom2 |-> Sc(m2), meansq |-> Sc(RMul(m1, m1)),
      var |-> Sc(RSub(m2, RMul(m1, m1))), std |-> 1, stdsq |-> Sc(RSub(m2, RMul(m1, m1))),
      smean |-> Sc(m1), svar |-> Sc(RSub(m2, RMul(m1, m1))),
      \* Riemann sums of the inverse over the quarters
      meanlo |-> (Sc(pp[1]) + Sc(pp[2]) + Sc(pp[3]) + Sc(pp[4])) \div 4,
      meanhi |-> (Sc(pp[2]) + Sc(pp[3]) + Sc(pp[4]) + Sc(pp[5])) \div 4,
      ent |-> 0, entlo |-> 0, enthi |-> 0, part |-> <<0>>, partsum |-> <<0>>,
      inc |-> [i \in 1..MaxX |-> Sc(RSub(Cdf(bins[i + 1]), Cdf(bins[i])))],
      inclo |-> [i \in 1..MaxX |-> Sc(Pdf(RAdd(bins[i], R(1, 2))))],
      inchi |-> [i \in 1..MaxX |-> Sc(Pdf(RAdd(bins[i], R(1, 2))))]]

\* fields that can be corrupted: scalars, and sequences at any place
Scalars == {"median", "mean", "mom0", "mom1", "mom2", "var", "stdsq", "smean", "svar", "mode", "ent"}
Seqs == {"pdf", "cdf", "sf", "ppf", "back", "isf", "intlo", "inthi", "integ", "hist", "part", "inc", "lpdf", "lcdf", "lsf"}
Off == 3000
Init == /\ e \in Edges /\ c \in Conts /\ tab = [r |-> Table(e, c), bad |-> "none", ok |-> TRUE]
Corrupt ==
  /\ tab.bad = "none"
  /\ \E d \in {Off, -Off} :
     \/ \E f \in Scalars : tab' = [r |-> [tab.r EXCEPT ![f] = @ + d], bad |-> f, ok |-> TRUE]
     \/ \E f \in Seqs \ {"pdf", "ppf", "lpdf", "lcdf", "lsf"} : \E i \in 1..Len(tab.r[f]) :
          tab' = [r |-> [tab.r EXCEPT ![f][i] = @ + d], bad |-> f, ok |-> TRUE]
     \* another ppf, with the cdf of what it is
     \/ \E i \in 1..Len(tab.r.ppf) :
          LET v == tab.r.ppf[i] + d
          IN tab' = [r |-> [tab.r EXCEPT !.ppf[i] = v, !.back[i] = Sc(HistCdf(e, c, R(v, S0)))], bad |-> "ppf", ok |-> TRUE]
     \/ \E i \in 1..Len(tab.r.pdf) : tab' = [r |-> [tab.r EXCEPT !.pdf[i] = -d - @], bad |-> "pdf", ok |-> d > 0]
  /\ UNCHANGED <<e, c>>
Next == Corrupt
Spec == Init /\ [][Next]_vars

Accepted == tab.bad = "none" => Fails(tab.r) = {}
\* a mode that is moved to another place of the same density is a mode
Rejected == (tab.bad \notin {"none", "mode"} /\ tab.ok) => Fails(tab.r) # {}
=============================================================================
