------------------------------ MODULE C15Trace ------------------------------
EXTENDS TraceSpec, Joint
VARIABLE i
\* e.own[ev]: the event's own observations; e.amps[ev]: its relative amplitudes; e.mts[c][ev]: candidate tuples;
\* e.cols[c]: which candidate column c of the answer is; e.lnp: rows of the answer; e.scale[c][k][a][b], e.sigma: the
\* reported scale factors; e.est[c][p][k]: per-station estimates of pair p (in PairList order) of the candidate of column c
PL(e) == PairList(Len(e.own))
Sh(e) == [p \in 1..Len(PL(e)) |-> Shared(e.amps[PL(e)[p][1]], e.amps[PL(e)[p][2]])]
Contributing(e) == IF ~e.rel THEN << >> ELSE SelectSeq([p \in 1..Len(PL(e)) |-> p], LAMBDA p : Len(Sh(e)[p]) >= e.min /\ Len(Sh(e)[p]) > 0)
\* a usable scale factor; without one (a nodal station) the pair's term is impossible
Mu(e, c, p, k) == e.scale[c][k][PL(e)[p][1]][PL(e)[p][2]]
MuOK(e, c) == \A p \in {Contributing(e)[x] : x \in 1..Len(Contributing(e))} : \A k \in 1..Len(e.w) : RIsFinite(Mu(e, c, p, k)) /\ 0 \prec Mu(e, c, p, k)
Pairs(e, mu(_, _)) == [x \in 1..Len(Contributing(e)) |-> LET p == Contributing(e)[x] IN
                        [i |-> PL(e)[p][1], j |-> PL(e)[p][2], sh |-> Sh(e)[p], mu |-> [k \in 1..Len(e.w) |-> mu(p, k)]]]
Est(e, c, p, k) == LET est == e.est[c][p][k] IN [u \in 1..Len(est) |-> est[u]]
\* the candidate's bracket with the specification's own combination of the per-station estimates
Bracket(e, c) == JointLn(e.own, e.amps, Pairs(e, LAMBDA p, k : Combined(Est(e, c, p, k))[1]), e.w, e.mode, e.mts[c])
EstOK(e, c) == \A p \in {Contributing(e)[x] : x \in 1..Len(Contributing(e))} : \A k \in 1..Len(e.w) : UsableEst(e.est[c][p][k])
ScaleOK(e, col) ==
  LET c == e.cols[col] IN
  \A x \in 1..Len(Contributing(e)) : \A k \in 1..Len(e.w) :
     LET p == Contributing(e)[x]  a == PL(e)[p][1] b == PL(e)[p][2]
         w == Combined(Est(e, c, p, k))
     IN UsableEst(e.est[c][p][k]) =>
        /\ Near(e.scale[col][k][a][b], w[1], 0, R("1e-10")) /\ Near(e.sigma[col][k][a][b], w[2], 0, R("1e-7"))
        /\ REq(e.scale[col][k][a][b], e.scale[col][k][b][a]) /\ REq(e.sigma[col][k][a][b], e.sigma[col][k][b][a])
JointTask(e) ==
  LET N == Len(e.mts)
      B == [c \in 1..N |-> IF EstOK(e, c) THEN Bracket(e, c) ELSE << RNegInf, RInf >>]
  IN CK("Candidates", /\ \A c \in 1..Len(e.cols) : e.cols[c] \in 1..N
                      /\ \A c, d \in 1..Len(e.cols) : c # d => e.cols[c] # e.cols[d])
     \cup CK("Shape", Len(e.cols) = 0 \/ (Len(e.lnp) = 1 /\ Len(e.lnp[1]) = Len(e.cols)))
     \cup CK("Tried", e.op = "loop" \/ e.n = e.tried)
     \cup (IF ~(Len(e.cols) = 0 \/ (Len(e.lnp) = 1 /\ Len(e.lnp[1]) = Len(e.cols))) \/ \E c \in 1..Len(e.cols) : e.cols[c] \notin 1..N THEN {}
           ELSE CK("Additive", \A c \in 1..Len(e.cols) : Within(e.lnp[1][c], B[e.cols[c]]))
                \cup CK("OnlyZeroDropped", e.complete => \A m \in 1..N : (\E c \in 1..Len(e.cols) : e.cols[c] = m) \/ (~e.keep /\ REq(B[m][1], RNegInf)))
                \cup CK("FilterOff", e.keep \/ \A c \in 1..Len(e.cols) : ~REq(e.lnp[1][c], RNegInf))
                \cup (IF Len(e.scale) = Len(e.cols) THEN CK("ScaleFactor", \A c \in 1..Len(e.cols) : ScaleOK(e, c)) ELSE CK("ScaleReported", ~e.rel \/ \A c \in 1..Len(e.cols) : REq(e.lnp[1][c], RNegInf))))
\* a direct evaluation of one pair: e.a, e.b relative amplitudes, e.mts candidate pairs, e.mu/e.s[k][c], e.lnp[k][c], e.est[c][k]; and the same in another station order
PairEvent(e) ==
  LET K == Len(e.mu) C == Len(e.mts)
      sh == [u \in 1..Len(e.a) |-> << u, u >>]
  IN CK("Combination", \A k \in 1..K : \A c \in 1..C : UsableEst(e.est[c][k]) =>
                          LET w == Combined(e.est[c][k]) IN Near(e.mu[k][c], w[1], 0, R("1e-10")) /\ Near(e.s[k][c], w[2], 0, R("1e-7")))
     \cup CK("OrderIndependent", \A k \in 1..K : \A c \in 1..C : UsableEst(e.est[c][k]) =>
                          Near(e.mu2[k][c], e.mu[k][c], 0, R("1e-10")) /\ Near(e.s2[k][c], e.s[k][c], 0, R("1e-7")))
     \cup CK("Term", \A k \in 1..K : \A c \in 1..C : UsableEst(e.est[c][k]) =>
                          LET b == PairTerm(e.a, e.b, sh, k, e.mts[c][1], e.mts[c][2], Combined(e.est[c][k])[1])
                          IN Within(e.lnp[k][c], b) /\ Within(e.lnp2[k][c], b))
     \cup CK("Estimates", e.scen.f = "large" \/ \A k \in 1..K : \A c \in 1..C : UsableEst(e.est[c][k]))
\* amplitudes consistent with a ratio e.true of the moments up to relative noise e.noise, with fractional errors up to e.eps
LimitEvent(e) ==
  LET bound == (2 \otimes e.noise) \oplus ((4 \otimes RSq(e.eps)) \oplus R("1e-12"))
  IN CK("Limit", \A c \in 1..Len(e.mu) : Near(e.mu[c], e.true, 0, bound))
     \cup CK("LimitDeviation", \A c \in 1..Len(e.s) : RIsFinite(e.s[c]) /\ 0 \prec e.s[c] /\ e.s[c] \preceq ((1 \oplus e.true) \otimes (3 \otimes e.eps)))
     \cup CK("LimitTerm", \A c \in 1..Len(e.lnp) : RIsFinite(e.lnp[c]))
Failing(e) ==
  IF e.error # "" THEN CK("Accepted", FALSE)
  ELSE IF e.op \in {"task", "inversion", "loop", "rule"} THEN JointTask(e)
  ELSE IF e.op = "pair" THEN PairEvent(e)
  ELSE LimitEvent(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
