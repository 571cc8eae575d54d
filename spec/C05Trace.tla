------------------------------ MODULE C05Trace ------------------------------
(* Recorded acceptance probabilities of the McMC classes against Metropolis.tla.
   pair:  states x -> y of one to three events (moves), log-likelihoods lx, ly, widths w, model priors px, py as returned by prior(), a and b the
          acceptance of the move and of its reverse; probes: outcomes of iterate for uniform draws next to a
   batch: several tries proposed at once and the number of the accepted one for scripted uniform draws *)
EXTENDS TraceSpec, Metropolis
VARIABLE i
Tiny == R("1e-9")                    \* below this a prior density is rounding noise (cos 3g at the end of the lune)
Lnb(e, x, y, move, w) ==
  LET z == IF move = "up" THEN y ELSE x IN
  IF e.jump = "gauss" THEN LnBalancing(z, w)
  ELSE LnFlatBalancing
\* the density of the flat draw which the code uses instead (pinned by its tests)
LnbUsed(e, x, y, move, w) == IF e.jump = "gauss" THEN LnBalancing(IF move = "up" THEN y ELSE x, w) ELSE RLn(3 \oslash (2 \otimes RPi))
Sum2(f(_), n) == RSum([v \in 1..n |-> f(v)])
IsJump(m) == m \in {"up", "down"}

PairRatio(e, B(_, _, _, _, _)) ==
  LET F(v) == LnRatio(e.moves[v], e.x[v], e.y[v], e.w[v], e.px[v], e.py[v], e.dcprior[v],
                      IF IsJump(e.moves[v]) THEN B(e, e.x[v], e.y[v], e.moves[v], e.w[v]) ELSE 0)
  IN Sum2(F, Len(e.moves))
PriorsOK(e) == \A v \in 1..Len(e.moves) : Tiny \prec e.px[v] /\ Tiny \prec e.py[v]
\* densities far below the smallest double cannot be formed by the code: not judged
Represented(e) == \A v \in 1..Len(e.moves) : IsJump(e.moves[v]) \/ (R("1e-290") \prec e.txy[v] /\ R("1e-290") \prec e.tyx[v])
Same(a, expected) == Near(a, expected, R("1e-15"), R("1e-8"))
LnQ(move, y, x, w) == IF move = "dc" THEN LnShiftDC(y, x, w) ELSE LnShiftMT(y, x, w)

Pair(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   LET judged == PriorsOK(e) /\ Represented(e)
       lnr == PairRatio(e, Lnb)
       lnu == PairRatio(e, LnbUsed)
       right == Same(e.a, Accept(lnr, e.lx, e.ly)) /\ Same(e.b, Accept(RNeg(lnr), e.ly, e.lx))
       used == Same(e.a, Accept(lnu, e.lx, e.ly)) /\ Same(e.b, Accept(RNeg(lnu), e.ly, e.lx))
       finite == RIsFinite(e.lx) /\ RIsFinite(e.ly)
   IN CK("Probability", 0 \preceq e.a /\ e.a \preceq 1 /\ 0 \preceq e.b /\ e.b \preceq 1) \cup
      CK("ZeroNeverAccepted", (REq(e.ly, RNegInf) => REq(e.a, 0)) /\ (REq(e.lx, RNegInf) => REq(e.b, 0))) \cup
      CK("ZeroAlwaysLeft", ((REq(e.lx, RNegInf) /\ RIsFinite(e.ly)) => REq(e.a, 1)) /\ ((REq(e.ly, RNegInf) /\ RIsFinite(e.lx)) => REq(e.b, 1))) \cup
      (IF ~judged THEN {} ELSE
        CK("Acceptance", right \/ used) \cup
        CK("FlatJumpDensity", right \/ ~used) \cup
        \* the identity itself, on what was observed
        CK("DetailedBalance", (finite /\ ~used /\ R("1e-200") \prec e.a /\ R("1e-200") \prec e.b) =>
             Near((RLn(e.a) \oplus e.lx) \ominus (RLn(e.b) \oplus e.ly), lnr, R("1e-7"), R("1e-9")))) \cup
      CK("TransitionDensity", \A v \in 1..Len(e.moves) : (~IsJump(e.moves[v]) /\ R("1e-290") \prec e.txy[v] /\ R("1e-290") \prec e.tyx[v]) =>
             Near(RLn(e.txy[v]) \ominus RLn(e.tyx[v]), LnQ(e.moves[v], e.y[v], e.x[v], e.w[v]) \ominus LnQ(e.moves[v], e.x[v], e.y[v], e.w[v]), R("1e-8"), R("1e-9"))) \cup
      CK("BalancingDensity", \A v \in 1..Len(e.moves) : (IsJump(e.moves[v]) /\ e.jump = "gauss") =>
             Near(e.bal[v], RExp(LnBalancing(IF e.moves[v] = "up" THEN e.y[v] ELSE e.x[v], e.w[v])), R("1e-300"), R("1e-9"))) \cup
      CK("Iterate", \A q \in 1..Len(e.probes) : e.probes[q][2] = (IF e.probes[q][1] \prec e.a THEN 1 ELSE 0)) \cup
      CK("IterateReverse", \A q \in 1..Len(e.bprobes) : e.bprobes[q][2] = (IF e.bprobes[q][1] \prec e.b THEN 1 ELSE 0)))

Batch(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {} ELSE
   LET K == Len(e.y)
       F(k) == LET G(v) == LnRatio(e.moves[k][v], e.x[v], e.y[k][v], e.w[v], e.px[v], e.py[k][v], e.dcprior[v],
                                  IF IsJump(e.moves[k][v]) THEN LnBalancing(IF e.moves[k][v] = "up" THEN e.y[k][v] ELSE e.x[v], e.w[v]) ELSE 0)
               IN Sum2(G, Len(e.x))
       acc == [k \in 1..K |-> Accept(F(k), e.lx, e.ly[k])]
       Close(u) == \E k \in 1..K : RAbs(u \ominus acc[k]) \preceq R("1e-7") /\ ~REq(acc[k], 1) /\ ~REq(acc[k], 0)
       First(u) == LET ok == {k \in 1..K : u \prec acc[k]} IN IF ok = {} THEN 0 ELSE CHOOSE k \in ok : \A j \in ok : k <= j
   IN CK("FirstAcceptedTry", \A q \in 1..Len(e.outcomes) : Close(e.outcomes[q][1]) \/ e.outcomes[q][2] = First(e.outcomes[q][1])) \cup
      CK("ZeroNeverAccepted", \A q \in 1..Len(e.outcomes) : e.outcomes[q][2] > 0 => ~REq(e.ly[e.outcomes[q][2]], RNegInf)) \cup
      CK("ZeroAlwaysLeft", (REq(e.lx, RNegInf) /\ \E k \in 1..K : RIsFinite(e.ly[k])) => \A q \in 1..Len(e.outcomes) : e.outcomes[q][2] > 0))

Prior(e) ==
  CK("DoubleCouplePrior", Near(e.pdc, 1, R("1e-12"), 0)) \cup
  CK("PriorOfModel", Near(e.pauto, IF e.mt THEN e.p ELSE 1, R("1e-12"), R("1e-12"))) \cup
  CK("PriorShape", IF e.prior = "flat" THEN Near(e.p, e.p0, R("1e-12"), 0)
                   ELSE Near(e.p \oslash e.p0, UniformLune(e.x) \oslash UniformLune([g |-> 0, d |-> 0]), R("0.03"), 0)) \cup
  (IF e.cells = << >> THEN {} ELSE
   LET mass == RSum([k \in 1..Len(e.cells) |-> RSum(e.cells[k])]) \otimes e.area
       recorded == e.prior = "uniform" /\ Near(mass, R("1.10452"), R("0.002"), 0)      \* known finding: the constant pinned by the tests
   IN CK("PriorMass", Near(mass, 1, R("0.01"), 0) \/ recorded) \cup CK("PriorNormalised", ~recorded))
Failing(e) == CASE e.op = "pair" -> Pair(e) [] e.op = "batch" -> Batch(e) [] e.op = "prior" -> Prior(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
