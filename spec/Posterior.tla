------------------------------ MODULE Posterior ------------------------------
(***************************************************************************)
(* The log-probability of a source: the sum over every selected observation *)
(* of its log-likelihood, log-sum-exp'd over weighted location samples.     *)
(* Values are intervals <<lo, hi>> because single factors are only          *)
(* determined up to the rounding of the closed forms (see C02, C03).        *)
(*                                                                          *)
(* An observation o: fn ("pol","prob","ratio"), phases, az, toa (sequences  *)
(* over location samples, degrees), meas, err, ipp.                         *)
(***************************************************************************)
EXTENDS Likelihood, Radiation
\* rounding of a modelled amplitude of a unit tensor
DX == R("2e-15")
PTolP == R("5e-16")
ObsAmp(o, q, k, m) == Dot(Coef(o.phases[q], RRad(o.az[k]), RRad(o.toa[k])), m)
LnI(lo, hi) == << IF lo \preceq 0 THEN RNegInf ELSE RLn(lo) \ominus R("1e-12"), IF hi \preceq 0 THEN RNegInf ELSE RLn(hi) \oplus R("1e-12") >>
Around(f(_), x) == LET s == << f(x \ominus DX), f(x), f(x \oplus DX) >> IN << RMinSeq(s), RMaxSeq(s) >>
PolFactor(o, k, m) ==
  LET x == o.meas[1] \otimes ObsAmp(o, 1, k, m)
      b == Around(LAMBDA y : PolarityP(y, o.err[1], o.ipp), x)
  IN LnI(b[1] \ominus PTolP, b[2] \oplus PTolP)
ProbFactor(o, k, m) ==
  LET b == Around(LAMBDA y : PolarityProbP(y, o.meas[1], o.meas[2], o.ipp), ObsAmp(o, 1, k, m))
  IN LnI(b[1] \ominus PTolP, b[2] \oplus PTolP)
RatioFactor(o, k, m) ==
  LET x == ObsAmp(o, 1, k, m)  y == ObsAmp(o, 2, k, m)
      fx == o.err[1] \oslash RAbs(o.meas[1])  fy == o.err[2] \oslash RAbs(o.meas[2])
      d == RatioFracClosed(RAbs(o.meas[1] \oslash o.meas[2]), x, y, fx, fy)
      tol == (R("1e-9") \oplus (R("2e-14") \oslash RSq(RMin2(fx, fy)))) \otimes (1 \oplus (R("0.1") \oslash RMin2(RAbs(x), RAbs(y))))
  IN IF ~RIsFinite(d) THEN << RNegInf, RInf >>
     ELSE IF R("1e-280") \prec d THEN << RLn(d) \ominus tol, RLn(d) \oplus tol >> ELSE << RNegInf, R("-640") >>
Factor(o, k, m) == CASE o.fn = "pol" -> PolFactor(o, k, m) [] o.fn = "prob" -> ProbFactor(o, k, m) [] o.fn = "ratio" -> RatioFactor(o, k, m)
\* the interval of ln p of source m for location sample k
LnSample(obs, k, m) ==
  LET f == [j \in 1..Len(obs) |-> Factor(obs[j], k, m)]
  IN << RSum([j \in 1..Len(obs) |-> f[j][1]]), RSum([j \in 1..Len(obs) |-> f[j][2]]) >>
Weighted(obs, w, k, m) == LET v == LnSample(obs, k, m) lw == RLn(w[k]) IN << v[1] \oplus lw, v[2] \oplus lw >>
\* rows of the answer: one per location sample, or the marginal
PosteriorRows(obs, w, marg, m) ==
  LET r == [k \in 1..Len(w) |-> Weighted(obs, w, k, m)]
  IN IF ~marg THEN r ELSE << << LnSumExp([k \in 1..Len(w) |-> r[k][1]]), LnSumExp([k \in 1..Len(w) |-> r[k][2]]) >> >>
Slack(v) == R("1e-11") \oplus (R("1e-14") \otimes RAbs(v))
Within(v, b) ==
  /\ ~RIsNaN(v) /\ ~REq(v, RInf)
  /\ IF REq(v, RNegInf) THEN REq(b[1], RNegInf)
     ELSE /\ b[1] \preceq (v \oplus Slack(v)) /\ v \preceq (b[2] \oplus Slack(v))
=============================================================================
