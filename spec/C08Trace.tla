------------------------------ MODULE C08Trace ------------------------------
EXTENDS TraceSpec, SourcePrior
VARIABLE i
Tol == R("1e-12")
Shape(b, e) == Len(b) = e.n /\ \A k \in 1..Len(b) : Len(b[k]) = 6 /\ AllFinite(b[k])
Pattern(kind, m) == CASE kind = "mt" -> TRUE [] kind = "dc" -> IsDC(m, Tol) [] kind = "clvd" -> IsCLVD(m, Tol)
\* e.batches: the samples of each call (or each event of a call), one six-vector per sample
Batch(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   LET all == {<< b, k >> : b \in 1..Len(e.batches), k \in 1..(IF Len(e.batches[1]) < 40 THEN Len(e.batches[1]) ELSE 40)}
       ok == \A b \in 1..Len(e.batches) : Shape(e.batches[b], e)
   IN CK("Requested", Len(e.batches) = e.expect /\ ok) \cup
      (IF ~ok THEN {} ELSE
       CK("UnitNorm", \A p \in all : IsUnit(e.batches[p[1]][p[2]], Tol)) \cup
       CK("EigenPattern", \A p \in all : Pattern(e.kind, e.batches[p[1]][p[2]])) \cup
       CK("NoRepeats", e.state = "parallel" \/ e.distinct = e.expect * e.n)))

\* e.proj[j]: counts of m.u <= edges for a unit direction u;  e.axis: counts of |component| <= edges of principal axes
Stats(e) ==
  LET n == e.total IN
  CK("UnitNormAll", e.maxnorm \preceq Tol) \cup
  CK("EigenPatternAll", e.maxpattern \preceq Tol) \cup
  CK("Count", e.total = e.asked /\ e.finite = TRUE) \cup
  CK("Mean", \A k \in 1..6 : SumOK(e.s1[k], n, 0, Cov(e.kind, k, k), 1)) \cup
  CK("Covariance", \A k, l \in 1..6 : SumOK(e.s2[k][l], n, Cov(e.kind, k, l), R("0.1"), 1)) \cup
  CK("Lag", \A k, l \in 1..6 : SumOK(e.lag[k][l], e.nlag, 0, 2 \otimes (Cov(e.kind, k, k) \otimes Cov(e.kind, l, l)), 1)) \cup
  CK("AcrossCalls", \A k, l \in 1..6 : SumOK(e.across[k][l], e.nacross, 0, 2 \otimes (Cov(e.kind, k, k) \otimes Cov(e.kind, l, l)), 1)) \cup
  CK("Radiation", \A g \in 1..Len(e.rad) : \A p \in 1..4 :
        IF e.kind = "mt" THEN TRUE ELSE SumOK(e.rad[g][p], n, Radiation(p), Radiation(IF p = 1 THEN 2 ELSE 4), 1)) \cup
  (IF e.kind = "mt" THEN
     CK("SphereMarginal", \A j \in 1..Len(e.proj) : \A k \in 1..Len(e.edges) : CountOK(e.proj[j][k], n, SphereCdf(e.edges[k]))) \cup
     CK("FourthMoments", \A k, l \in 1..6 : SumOK(e.s4[k][l], n, Fourth(k, l), R("0.05"), 1))
   ELSE
     CK("AxisUniform", \A j \in 1..Len(e.axis) : \A k \in 1..Len(e.aedges) : CountOK(e.axis[j][k], n, e.aedges[k])) \cup
     CK("TwistUniform", \A k \in 1..Len(e.aedges) : CountOK(e.twist[k], n, e.aedges[k]) /\
                          \A q \in 1..Len(e.joint) : CountOK(e.joint[q][k], n, e.aedges[k] \oslash Len(e.joint)))) \cup
  (IF e.kind = "clvd" THEN
     CK("EitherSign", CountOK(e.positive, n, R("0.5"))) \cup
     CK("SignIndependent", SumOK(e.signlag, e.nlag, 0, 1, 1))
   ELSE {})
Failing(e) == CASE e.op = "batch" -> Batch(e) [] e.op = "stats" -> Stats(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
