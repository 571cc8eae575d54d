---------------------------- MODULE SourcePrior ----------------------------
(***************************************************************************)
(* The prior of C08.  Full tensors: uniform on the unit 6-sphere.  Double   *)
(* couple / CLVD: unit tensors of fixed eigenvalue pattern whose principal  *)
(* axes are a Haar-random triad, CLVD with either sign.  What a sample must *)
(* satisfy is exact; what a population must satisfy is stated as exact      *)
(* moments and distribution functions with a Z-standard-deviation band.     *)
(***************************************************************************)
EXTENDS Tensor
Z == 8                                     \* standard deviations; a false alarm has probability ~1e-15 per statistic

(* ---- one sample ---- *)
TraceOf(m) == RSum(<< m[1], m[2], m[3] >>)
DetOf(m) == LET a == Six33(m) IN Dot(a[1], Cross(a[2], a[3]))
\* a unit traceless tensor has det^2 <= 1/54, with equality for a CLVD; a double couple has det = 0
IsDC(m, tol) == RAbs(TraceOf(m)) \preceq tol /\ RAbs(DetOf(m)) \preceq tol
ClvdDet == 1 \oslash RSqrt(54)
IsCLVD(m, tol) == RAbs(TraceOf(m)) \preceq tol /\ Near(RAbs(DetOf(m)), ClvdDet, tol, 0)
IsUnit(m, tol) == Near(Dot(m, m), 1, tol, 0)

(* ---- populations ---- *)
\* P(m . u <= x) for m uniform on the unit sphere of R^6 and any unit u
SphereCdf(x) ==
  LET c == RSqrt(RMax2(0, 1 \ominus RSq(x)))
  IN R("0.5") \oplus (((((x \otimes (5 \ominus (2 \otimes RSq(x)))) \otimes c) \oslash 8) \oplus ((3 \otimes RAsin(x)) \oslash 8)) \otimes (8 \oslash (3 \otimes RPi)))
\* a count out of n of an event of probability p
Band(n, p) == (Z \otimes RSqrt((n \otimes p) \otimes (1 \ominus p))) \oplus 12
CountOK(c, n, p) == RAbs(c \ominus (n \otimes p)) \preceq Band(n, p)
\* a sum over n samples of a function with mean mu and variance at most var, bounded by b
SumOK(s, n, mu, var, b) == RAbs(s \ominus (n \otimes mu)) \preceq ((Z \otimes RSqrt(n \otimes var)) \oplus (12 \otimes b))
Delta(a, b) == IF a = b THEN 1 ELSE 0
\* covariance of a six-vector: 1/6 on the whole sphere; (identity - isotropic part)/5 for a traceless tensor under Haar rotations
Cov(kind, k, l) == IF kind = "mt" THEN Delta(k, l) \oslash 6
                   ELSE (Delta(k, l) \ominus (IF k <= 3 /\ l <= 3 THEN 1 \oslash 3 ELSE 0)) \oslash 5
\* fourth moments on the sphere: E m_k^2 m_l^2
Fourth(k, l) == (1 + 2 * Delta(k, l)) \oslash 48
\* E (g.M.g)^p over rotations of a unit traceless tensor M, any unit g
Radiation(p) == CASE p = 1 -> 0 [] p = 2 -> 2 \oslash 15 [] p = 3 -> 0 [] p = 4 -> 4 \oslash 105
=============================================================================
