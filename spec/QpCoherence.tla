---------------------------- MODULE QpCoherence ----------------------------
(***************************************************************************)
(* When the functions of one distribution form one probability law.        *)
(*                                                                         *)
(* A record is a table of one distribution: its functions at increasing    *)
(* points x and probabilities q, and what is derived from them.  Values    *)
(* are integers in units of 1/S; Inf stands for infinity and NaN for no    *)
(* number.  Fails(r) is the set of the clauses that the record breaks;     *)
(* clauses that a representation does not promise are listed in r.skip.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Inf == 2000000000
NaN == 1999999999
Fin(v) == v > -1900000000 /\ v < 1900000000
Abs(v) == IF v < 0 THEN -v ELSE v
MaxV(a, b) == IF a < b THEN b ELSE a
MinV(a, b) == IF a < b THEN a ELSE b
\* the same up to a tolerance (in units)
Near(a, b, tol) == IF Fin(a) /\ Fin(b) THEN Abs(a - b) <= tol ELSE a = b
Sorted(s, tol) == \A i \in 1..(Len(s) - 1) : s[i] # NaN /\ s[i + 1] # NaN /\ s[i] <= s[i + 1] + tol
AllIn(s, lo, hi) == \A i \in 1..Len(s) : s[i] # NaN /\ s[i] >= lo /\ s[i] <= hi
Same(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Near(s[i], t[i], tol)
\* where one holds
SameAt(s, t, tol, cond) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : cond[i] = 1 => Near(s[i], t[i], tol)

(* r.x, r.pdf, r.cdf, r.sf            values at the points                  *)
(* r.lpdf r.lcdf r.lsf                the log functions there               *)
(* r.log                              logarithms of the values: pdf cdf sf  *)
(* r.q, r.ppf, r.back (cdf of ppf), r.dens (pdf at ppf), r.isf (at 1 - q)   *)
(* r.below, r.above                   sampled end of the support            *)
PdfOk(r) == \A i \in 1..Len(r.pdf) : r.pdf[i] # NaN /\ r.pdf[i] >= 0
CdfOk(r) == AllIn(r.cdf, -r.tol, r.S + r.tol)
CdfGrows(r) == Sorted(r.cdf, r.tol)
CdfEnds(r) == /\ Near(r.cdf[1], 0, r.endtol)
              /\ Near(r.cdf[Len(r.cdf)], r.S, r.endtol)
SfOk(r) == \A i \in 1..Len(r.sf) : Near(r.sf[i], r.S - r.cdf[i], r.tol)
LogPdf(r) == SameAt(r.lpdf, r.logpdf, r.tol, r.okpdf)
LogCdf(r) == SameAt(r.lcdf, r.logcdf, r.tol, r.okcdf)
LogSf(r) == SameAt(r.lsf, r.logsf, r.tol, r.oksf)
PpfGrows(r) == Sorted(r.ppf, r.tol)
\* where the density is positive, to within the resolution of the inverse
PpfBack(r) == \A i \in 1..Len(r.q) : r.dens[i] > r.tol => Near(r.back[i], r.q[i], r.backtol)
PpfInside(r) == \A i \in 1..Len(r.ppf) : r.ppf[i] # NaN /\ r.ppf[i] >= r.low - r.tol /\ r.ppf[i] <= r.high + r.tol
IsfOk(r) == Same(r.isf, r.ppf1, r.isftol)
MedianOk(r) == Near(r.median, r.ppfhalf, r.tol)
IntervalOk(r) == Same(r.intlo, r.ppflo, r.isftol) /\ Same(r.inthi, r.ppfhi, r.isftol)
IntegralOk(r) == \A i \in 1..Len(r.integ) : Near(r.integ[i], r.cdfb[i] - r.cdfa[i], r.tol)
HistOk(r) == /\ Len(r.hist) + 1 = Len(r.hcdf)
             /\ \A i \in 1..Len(r.hist) : Near(r.hist[i], r.hcdf[i + 1] - r.hcdf[i], r.tol)
\* the mode is a point of the grid where the density is largest
ModeOk(r) == \E i \in 1..Len(r.grid) : /\ Near(r.mode, r.grid[i], r.tol)
                                       /\ \A j \in 1..Len(r.gpdf) : r.gpdf[j] <= r.gpdf[i] + r.tol
MomentsOk(r) == /\ Near(r.mom0, r.MS, r.momtol)
                /\ Near(r.mom1, r.mean, r.momtol)
                /\ Near(r.var, r.mom2 - r.meansq, r.momtol)
                /\ Near(r.stdsq, r.var, r.momtol)
                /\ r.var >= -r.momtol /\ r.std >= 0
StatsOk(r) == Near(r.smean, r.mean, r.momtol) /\ Near(r.svar, r.var, r.momtol)
\* the mean is the mean of the law: the integral of the inverse, between its Riemann sums (momtol units)
MeanOk(r) == r.mean >= r.meanlo - r.momtol /\ r.mean <= r.meanhi + r.momtol
EntropyOk(r) == r.ent >= r.entlo /\ r.ent <= r.enthi
PartialOk(r) == Same(r.part, r.partsum, r.parttol)
\* the integral of the density is the increase of the cdf, between its Riemann sums
LawOk(r) == \A i \in 1..Len(r.inclo) : r.inc[i] >= r.inclo[i] - r.tol /\ r.inc[i] <= r.inchi[i] + r.tol

Clauses(r) == [nonnegative |-> PdfOk(r), range |-> CdfOk(r), monotone |-> CdfGrows(r), ends |-> CdfEnds(r), survival |-> SfOk(r),
               logpdf |-> LogPdf(r), logcdf |-> LogCdf(r), logsf |-> LogSf(r), ppforder |-> PpfGrows(r), inverse |-> PpfBack(r),
               support |-> PpfInside(r), isf |-> IsfOk(r), median |-> MedianOk(r), interval |-> IntervalOk(r), integral |-> IntegralOk(r),
               histogram |-> HistOk(r), mode |-> ModeOk(r), moments |-> MomentsOk(r), stats |-> StatsOk(r), mean |-> MeanOk(r),
               entropy |-> EntropyOk(r), partial |-> PartialOk(r), law |-> LawOk(r)]
Fails(r) == {c \in DOMAIN Clauses(r) : (\A i \in 1..Len(r.skip) : r.skip[i] # c) /\ ~Clauses(r)[c]}
=============================================================================
