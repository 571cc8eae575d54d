-------------------------------- MODULE Joint --------------------------------
(***************************************************************************)
(* The log-probability of a tuple of sources, one per event: the sum of the *)
(* events' own log-probabilities plus, with relative amplitudes, one        *)
(* ratio-likelihood term per pair of events on the amplitudes the two share *)
(* (same station and phase, whatever the order), if there are enough of     *)
(* them.  A relative amplitude: name, phase, az, toa (over location         *)
(* samples), amp, frac.                                                     *)
(***************************************************************************)
EXTENDS Posterior, Integers, FiniteSets
Key(o) == << o.name, o.phase >>
\* indices <<p, q>> of the shared amplitudes of two events
Shared(a, b) == SelectSeq([p \in 1..Len(a) |-> << p, IF \E q \in 1..Len(b) : Key(b[q]) = Key(a[p]) THEN CHOOSE q \in 1..Len(b) : Key(b[q]) = Key(a[p]) ELSE 0 >>], LAMBDA x : x[2] # 0)
\* pairs in the order the answer reports them: (2,1), (3,1), (3,2), ...
PairList(n) == SelectSeq([k \in 1..n*n |-> << ((k-1) \div n) + 1, ((k-1) % n) + 1 >>], LAMBDA x : x[2] < x[1])
RelAmp(o, k, m) == RAbs(Dot(Coef(<< o.phase >>[1], RRad(o.az[k]), RRad(o.toa[k])), m))
\* inverse-variance weighted combination of estimates est = << <<mean, deviation>>, ... >>
Combined(est) ==
  LET w == [u \in 1..Len(est) |-> 1 \oslash RSq(est[u][2])]
      W == RSum(w)
  IN << RSum([u \in 1..Len(est) |-> w[u] \otimes est[u][1]]) \oslash W, 1 \oslash RSqrt(W) >>
UsableEst(est) == \A u \in 1..Len(est) : RIsFinite(est[u][1]) /\ RIsFinite(est[u][2]) /\ 0 \prec est[u][2]
\* the ratio-likelihood of one shared amplitude given the scale factor mu, as an interval
PairFactor(a, b, k, ma, mb, mu) ==
  LET x == mu \otimes RelAmp(a, k, ma)  y == RelAmp(b, k, mb)
      d == RatioFracClosed(a.amp \oslash b.amp, x, y, a.frac, b.frac)
      f == RMin2(a.frac, b.frac)
      tol == (R("1e-9") \oplus (R("2e-14") \oslash RSq(f))) \otimes (1 \oplus (R("0.1") \oslash RMin2(RelAmp(a, k, ma), y)))
      \* the scale factor is itself rounded: the log-density moves by about (deviations / fraction) times its relative error
      mtol == (R("1e-11") \otimes RSqrt(20 \oplus (2 \otimes RAbs(RLn(d))))) \oslash f
  IN IF ~RIsFinite(d) THEN << RNegInf, RInf >>
     ELSE IF R("1e-280") \prec d THEN << RLn(d) \ominus (tol \oplus mtol), RLn(d) \oplus (tol \oplus mtol) >> ELSE << RNegInf, R("-640") >>
PairTerm(a, b, sh, k, ma, mb, mu) ==
  LET f == [u \in 1..Len(sh) |-> PairFactor(a[sh[u][1]], b[sh[u][2]], k, ma, mb, mu)]
  IN IF Len(sh) = 0 THEN << 0, 0 >> ELSE << RSum([u \in 1..Len(f) |-> f[u][1]]), RSum([u \in 1..Len(f) |-> f[u][2]]) >>
Total(s) == << RSum([u \in 1..Len(s) |-> s[u][1]]), RSum([u \in 1..Len(s) |-> s[u][2]]) >>
\* mode "events": every event's own (marginal) log-probability is summed; mode "shared": the events share the location samples.
\* pairs: << [i, j, sh, mu (per location)], ... >> of the pairs which contribute
JointLn(own, rel, pairs, w, mode, m) ==
  LET E == Len(own)
      Pt(k) == [p \in 1..Len(pairs) |-> PairTerm(rel[pairs[p].i], rel[pairs[p].j], pairs[p].sh, k, m[pairs[p].i], m[pairs[p].j], pairs[p].mu[k])]
      row(k) == Total([e \in 1..E |-> LnSample(own[e], k, m[e])] \o Pt(k) \o << << RLn(w[k]), RLn(w[k]) >> >>)
  IN IF mode = "events" THEN Total([e \in 1..E |-> PosteriorRows(own[e], w, TRUE, m[e])[1]] \o Pt(1))
     ELSE LET r == [k \in 1..Len(w) |-> row(k)]
          IN << LnSumExp([k \in 1..Len(w) |-> r[k][1]]), LnSumExp([k \in 1..Len(w) |-> r[k][2]]) >>
=============================================================================
