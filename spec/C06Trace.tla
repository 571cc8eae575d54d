------------------------------ MODULE C06Trace ------------------------------
(* Recorded proposals and width histories against Metropolis.tla (domain, truncated Gaussians, jumps) *)
EXTENDS TraceSpec, Metropolis, SourcePrior
VARIABLE i
Tol == R("1e-12")
InDomain(x) == /\ RNeg(GMax) \preceq x.g /\ x.g \preceq GMax /\ RNeg(DMax) \preceq x.d /\ x.d \preceq DMax
               /\ 0 \preceq x.k /\ x.k \prec (2 \otimes RPi) /\ 0 \preceq x.h /\ x.h \preceq 1 /\ RNeg(SMax) \preceq x.s /\ x.s \preceq SMax
\* distribution functions of the proposals
WrappedCdf(y, mu, w) == RSum([k \in 1..9 |-> Mass(TwoPi \otimes (k - 5), y \oplus (TwoPi \otimes (k - 5)), mu, w)])
Cdf(q, y, x, w) ==
  CASE q = "k" -> WrappedCdf(y, x.k, w.k)
    [] q = "h" -> TruncCdf(y, x.h, w.h, 0, 1)
    [] q = "s" -> TruncCdf(y, x.s, w.s, RNeg(SMax), SMax)
    [] q = "g" -> TruncCdf(y, x.g, w.g, RNeg(GMax), GMax)
    [] q = "d" -> TruncCdf(y, x.d, w.d, RNeg(DMax), DMax)
BalG(e, y) == IF Has(e, "balw") /\ e.balw = "flat" THEN (y \oplus GMax) \oslash (2 \otimes GMax) ELSE TruncCdf(y, 0, e.gdc, RNeg(GMax), GMax)
BalD(e, y) == IF Has(e, "balw") /\ e.balw = "flat" THEN (y \oplus DMax) \oslash (2 \otimes DMax) ELSE TruncCdf(y, 0, e.ddc, RNeg(DMax), DMax)
Domain(e) ==
  CK("Domain", e.finite = TRUE /\ InDomain(e.lo) /\ InDomain(e.hi)) \cup
  CK("UnitNorm", e.maxnorm \preceq Tol) \cup
  CK("UnitNormSome", \A k \in 1..Len(e.some) : IsUnit(e.some[k].m, Tol))

Draws(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   Domain(e) \cup
   CK("DoubleCoupleStays", (e.isdc = TRUE /\ e.jumps = 0) => (e.dcparam = e.total /\ e.dcpattern \preceq Tol)) \cup
   CK("JumpProbability", CASE e.jump = "none" -> e.jumps = 0 [] e.jump = "always" -> e.jumps = e.total [] OTHER -> CountOK(e.jumps, e.total, e.p)) \cup
   CK("JumpKeepsOrientation", e.jumpskeep = e.jumps) \cup
   \* with narrow widths at large values two doubles may coincide
   CK("ShiftMovesOrientation", e.halfmoved <= 3) \cup
   CK("JumpToDoubleCouple", (e.isdc = FALSE /\ e.jump = "always") => (e.dcparam = e.total /\ e.dcpattern \preceq Tol)) \cup
   CK("Marginals", \A q \in DOMAIN e.counts : \A k \in 1..Len(e.counts[q]) : CountOK(e.counts[q][k][2], e.shifts, Cdf(q, e.counts[q][k][1], e.x, e.w))) \cup
   CK("Independent", \A k \in 1..Len(e.joint) : CountOK(e.joint[k][5], e.shifts, Cdf(e.joint[k][1], e.joint[k][2], e.x, e.w) \otimes Cdf(e.joint[k][3], e.joint[k][4], e.x, e.w))) \cup
   CK("BalancingDraw", (\A k \in 1..Len(e.balg) : CountOK(e.balg[k][2], e.jumps, BalG(e, e.balg[k][1]))) /\
                       (\A k \in 1..Len(e.bald) : CountOK(e.bald[k][2], e.jumps, BalD(e, e.bald[k][1])))))

Adversarial(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   Domain(e) \cup
   \* with awkward draws a shift may land on the double couples; a shift of a double couple never leaves them
   CK("JumpKeepsOrientation", e.isdc = TRUE => e.jumpskeep >= e.jumps) \cup
   CK("DoubleCoupleStays", (e.isdc = TRUE /\ e.jumps = 0) => (e.dcparam = e.total /\ e.dcpattern \preceq Tol)))

JumpDraws(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   Domain(e) \cup
   CK("JumpKeepsOrientation", e.jumpskeep = e.total) \cup
   CK("JumpsToFullTensor", e.dcparam = 0) \cup
   CK("BalancingDraw", (\A k \in 1..Len(e.balg) : CountOK(e.balg[k][2], e.total, BalG(e, e.balg[k][1]))) /\
                       (\A k \in 1..Len(e.bald) : CountOK(e.bald[k][2], e.total, BalD(e, e.bald[k][1])))) \cup
   CK("BalancingIndependent", \A k \in 1..Len(e.baljoint) : CountOK(e.baljoint[k][3], e.total, BalG(e, e.baljoint[k][1]) \otimes BalD(e, e.baljoint[k][2]))) \cup
   CK("JumpParams", /\ \A k \in 1..Len(e.pairg) : CountOK(e.pairg[k][2], e.pairs, BalG(e, e.pairg[k][1]))
                    /\ \A k \in 1..Len(e.paird) : CountOK(e.paird[k][2], e.pairs, BalD(e, e.paird[k][1]))
                    /\ RNeg(GMax) \preceq e.pairlo[1] /\ e.pairhi[1] \preceq GMax /\ RNeg(DMax) \preceq e.pairlo[2] /\ e.pairhi[2] \preceq DMax))

Start(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   CK("Domain", Len(e.some) = e.events /\ \A k \in 1..Len(e.some) : InDomain(e.some[k])) \cup
   CK("UnitNormSome", \A k \in 1..Len(e.some) : IsUnit(e.some[k].m, Tol)) \cup
   CK("DoubleCoupleStays", e.dc = TRUE => \A k \in 1..Len(e.some) : REq(e.some[k].g, 0) /\ REq(e.some[k].d, 0) /\ IsDC(e.some[k].m, Tol)))

\* e.widths[k]: the successive values of one width
Adapt(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   CK("WidthsKept", e.missing = << >>) \cup
  CK("WidthsPositive", \A k \in 1..Len(e.widths) : \A j \in 1..Len(e.widths[k]) : RIsFinite(e.widths[k][j]) /\ 0 \prec e.widths[k][j]) \cup
  CK("NotAboveMaximum", \A k \in 1..Len(e.widths) : \A j \in 2..Len(e.widths[k]) : e.widths[k][j - 1] \prec e.widths[k][j] =>
        \/ e.widths[k][j] \preceq e.maxes[k]
        \* a width configured above the maximum may be restored, not raised
        \/ \E b \in 1..(j - 1) : e.widths[k][j] \preceq e.widths[k][b] /\ REq(e.widths[k][b], e.widths[k][1])) \cup
  CK("BalancingNormalised", \A k \in 1..Len(e.norm) : Near(e.norm[k][3], Mass(RNeg(GMax), GMax, 0, e.norm[k][1]) \otimes Mass(RNeg(DMax), DMax, 0, e.norm[k][2]), 0, R("1e-9"))))

Failing(e) == CASE e.op = "draws" -> Draws(e) [] e.op = "adversarial" -> Adversarial(e) [] e.op = "jumpdraws" -> JumpDraws(e) [] e.op = "start" -> Start(e)
                [] e.op \in {"adapt", "long"} -> Adapt(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
