----------------------------- MODULE Metropolis -----------------------------
(***************************************************************************)
(* Metropolis-Hastings acceptance on the bounded Tape parameters.           *)
(* A state of one event is a record [g, d, k, h, s] (lune longitude and     *)
(* latitude, strike, cos dip, slip); a double couple has g = d = 0.         *)
(* Proposals: truncated Gaussians about the current state in h, s and, for  *)
(* a full tensor, g, d; the wrapped strike is symmetric and cancels.        *)
(* Jumps: up draws the balancing pair (g, d) from the truncated Gaussian    *)
(* about 0 (or flat over the lune), down drops it; both keep k, h, s.       *)
(***************************************************************************)
EXTENDS RealArith
Half == R("0.5")
GMax == RPi \oslash 6
DMax == RPi \oslash 2
SMax == RPi \oslash 2

(* ---- truncated Gaussian ---- *)
Phi(x, mu, w) == Half \otimes (1 \oplus RErf((x \ominus mu) \oslash (w \otimes RSqrt(2))))
Mass(lo, hi, mu, w) == Half \otimes (RErf((hi \ominus mu) \oslash (w \otimes RSqrt(2))) \ominus RErf((lo \ominus mu) \oslash (w \otimes RSqrt(2))))
LnTrunc(y, mu, w, lo, hi) ==
  RNeg((RSq((y \ominus mu) \oslash w) \oslash 2) \oplus RLn((w \otimes RSqrt(2 \otimes RPi)) \otimes Mass(lo, hi, mu, w)))
TruncCdf(y, mu, w, lo, hi) == Mass(lo, y, mu, w) \oslash Mass(lo, hi, mu, w)

(* ---- proposal density, strike factor omitted ---- *)
LnShiftDC(y, x, w) == LnTrunc(y.h, x.h, w.h, 0, 1) \oplus LnTrunc(y.s, x.s, w.s, RNeg(SMax), SMax)
LnShiftMT(y, x, w) == (LnShiftDC(y, x, w) \oplus LnTrunc(y.g, x.g, w.g, RNeg(GMax), GMax)) \oplus LnTrunc(y.d, x.d, w.d, RNeg(DMax), DMax)
LnBalancing(x, w) == LnTrunc(x.g, 0, w.gdc, RNeg(GMax), GMax) \oplus LnTrunc(x.d, 0, w.ddc, RNeg(DMax), DMax)
LnFlatBalancing == RLn(3 \oslash RSq(RPi))

(* ---- source-type prior of the full tensor model: uniform on the sphere of moment tensors, or flat over the lune ---- *)
UniformLune(x) == ((4 \oslash RPi) \otimes RCos(3 \otimes x.g)) \otimes RPow(RCos(x.d), 4)
FlatLune == 3 \oslash RSq(RPi)

(* ---- logarithm of the ratio of one event, likelihood excluded ----
   move "dc"/"mt": shift within the model; "up": double couple to full tensor; "down": back.
   px, py: model prior densities; pdc: prior probability of the double-couple model; lnb: log balancing density *)
LnRatio(move, x, y, w, px, py, pdc, lnb) ==
  LET lp == RLn(py) \ominus RLn(px)
      odds == RLn(1 \ominus pdc) \ominus RLn(pdc)
  IN CASE move = "dc" -> lp \oplus (LnShiftDC(x, y, w) \ominus LnShiftDC(y, x, w))
       [] move = "mt" -> lp \oplus (LnShiftMT(x, y, w) \ominus LnShiftMT(y, x, w))
       [] move = "up" -> (lp \oplus odds) \ominus lnb
       [] move = "down" -> (lp \ominus odds) \oplus lnb
Inverse(move) == CASE move = "up" -> "down" [] move = "down" -> "up" [] OTHER -> move
\* a = min(1, ratio), with the two rules for zero likelihoods
Accept(lnr, lx, ly) ==
  IF REq(ly, RNegInf) THEN 0
  ELSE IF REq(lx, RNegInf) THEN 1
  ELSE LET t == lnr \oplus (ly \ominus lx) IN IF 0 \preceq t THEN 1 ELSE RExp(t)
=============================================================================
