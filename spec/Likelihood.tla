----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* Data likelihoods of MTfit, as mathematics.  Used by C01, C02, C03, C15.  *)
(***************************************************************************)
EXTENDS RealArith

Half == R("0.5")
Sqrt2 == RSqrt(2)

\* modelled amplitude of tensor m (a six-vector) at a station with coefficients c
Amp(c, m) == RDot(c, m)

\* P(observed first motion | amplitude x (already multiplied by the observed polarity), uncertainty s, mispick w);
\* s = 0 is the hard limit.
CdfHard(x) == IF 0 \prec x THEN 1 ELSE IF x \prec 0 THEN 0 ELSE Half
Cdf(x, s) == IF REq(s, 0) THEN CdfHard(x)
             ELSE Half \otimes RErfc(RNeg((x \oslash s) \oslash Sqrt2))
PolarityP(x, s, w) == (Cdf(x, s) \otimes (1 \ominus w)) \oplus (Cdf(RNeg(x), s) \otimes w)

\* step-function mixture of positive / negative pick probabilities, H(0) = 1/2
H(x) == IF 0 \prec x THEN 1 ELSE IF x \prec 0 THEN 0 ELSE Half
Mix(x, p, n) == (H(x) \otimes p) \oplus (H(RNeg(x)) \otimes n)
PolarityProbP(x, p, n, w) == (Mix(x, p, n) \otimes (1 \ominus w)) \oplus (Mix(RNeg(x), p, n) \otimes w)

LnP(p) == IF p \preceq 0 THEN RNegInf ELSE RLn(p)

(***************************************************************************)
(* Density of r = |X/Y| for independent Gaussians X ~ N(mx,sx), Y ~ N(my,sy):*)
(*   f(r) = Int |y| (N(ry; mx,sx) + N(-ry; mx,sx)) N(y; my,sy) dy            *)
(***************************************************************************)
\* 8-point Gauss-Legendre rule on [-1,1]
GLx == << R("-0.9602898564975363"), R("-0.7966664774136267"), R("-0.5255324099163290"), R("-0.1834346424956498"),
          R("0.1834346424956498"), R("0.5255324099163290"), R("0.7966664774136267"), R("0.9602898564975363") >>
GLw == << R("0.1012285362903763"), R("0.2223810344533745"), R("0.3137066458778873"), R("0.3626837833783620"),
          R("0.3626837833783620"), R("0.3137066458778873"), R("0.2223810344533745"), R("0.1012285362903763") >>
\* composite rule with n panels on [lo, hi]; f is an operator of one real
GL(f(_), lo, hi, n) ==
  LET h == (hi \ominus lo) \oslash (2 * n)
  IN h \otimes RSum([k \in 1..8*n |->
        LET p == (k-1) \div 8   q == ((k-1) % 8) + 1
            mid == lo \oplus (h \otimes (2*p + 1))
        IN GLw[q] \otimes f(mid \oplus (h \otimes GLx[q]))])

GaussPdf(x, m, s) == RExp(RNeg(Half \otimes RSq((x \ominus m) \oslash s))) \oslash (s \otimes RSqrt(2 \otimes RPi))

\* the defining integral, taken literally over +-12 sigma of Y, split at 0
RatioSignedDirect(r, mx, my, sx, sy) ==
  LET lo == my \ominus (12 \otimes sy)  hi == my \oplus (12 \otimes sy)
      g(y) == RAbs(y) \otimes GaussPdf(r \otimes y, mx, sx) \otimes GaussPdf(y, my, sy)
  IN IF lo \prec 0 /\ 0 \prec hi THEN GL(g, lo, 0, 80) \oplus GL(g, 0, hi, 80) ELSE GL(g, lo, hi, 100)
RatioDirect(r, mx, my, sx, sy) == RatioSignedDirect(r, mx, my, sx, sy) \oplus RatioSignedDirect(RNeg(r), mx, my, sx, sy)

\* the same integral after completing the square in y: the product of the two Gaussians is a Gaussian in y of
\* centre y0 = b/a^2 and width 1/a times exp(-E), E = (mx - r my)^2 / (2 (sx^2 + r^2 sy^2)); with y = y0 + t/a
RatioSigned(r, mx, my, sx, sy) ==
  LET a2 == (RSq(r) \oslash RSq(sx)) \oplus (1 \oslash RSq(sy))
      a == RSqrt(a2)
      b == ((r \otimes mx) \oslash RSq(sx)) \oplus (my \oslash RSq(sy))
      c == b \oslash a                          \* a*y0
      E == Half \otimes (RSq(mx \ominus (r \otimes my)) \oslash (RSq(sx) \oplus (RSq(r) \otimes RSq(sy))))
      z == RNeg(c)                              \* |t + c| has its kink here
      g(t) == RAbs(t \oplus c) \otimes RExp(RNeg(Half \otimes RSq(t)))
      I == IF R("-9") \prec z /\ z \prec 9 THEN GL(g, R("-9"), z, 8) \oplus GL(g, z, 9, 8)
           ELSE GL(g, R("-9"), 9, 10)
  IN (I \otimes RExp(RNeg(E))) \oslash ((2 \otimes RPi) \otimes sx \otimes sy \otimes a2)
RatioDensity(r, mx, my, sx, sy) == RatioSigned(r, mx, my, sx, sy) \oplus RatioSigned(RNeg(r), mx, my, sx, sy)
\* the remaining integral in closed form: Int |t + c| exp(-t^2/2) dt = 2 exp(-c^2/2) + c sqrt(2 pi) erf(c/sqrt 2) (lemma in QuadTest)
RatioSignedClosed(r, mx, my, sx, sy) ==
  LET a2 == (RSq(r) \oslash RSq(sx)) \oplus (1 \oslash RSq(sy))
      c == (((r \otimes mx) \oslash RSq(sx)) \oplus (my \oslash RSq(sy))) \oslash RSqrt(a2)
      E == Half \otimes (RSq(mx \ominus (r \otimes my)) \oslash (RSq(sx) \oplus (RSq(r) \otimes RSq(sy))))
      I == (2 \otimes RExp(RNeg(Half \otimes RSq(c)))) \oplus (c \otimes RSqrt(2 \otimes RPi) \otimes RErf(c \oslash Sqrt2))
  IN (I \otimes RExp(RNeg(E))) \oslash ((2 \otimes RPi) \otimes sx \otimes sy \otimes a2)
RatioFracClosed(r, x, y, fx, fy) ==
  LET mx == RAbs(x)  my == RAbs(y)
  IN RatioSignedClosed(r, mx, my, fx \otimes mx, fy \otimes my) \oplus RatioSignedClosed(RNeg(r), mx, my, fx \otimes mx, fy \otimes my)
\* what MTfit evaluates: magnitudes of the modelled amplitudes, fractional uncertainties
RatioFrac(r, x, y, fx, fy) ==
  RatioDensity(r, RAbs(x), RAbs(y), fx \otimes RAbs(x), fy \otimes RAbs(y))
=============================================================================
