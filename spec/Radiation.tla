----------------------------- MODULE Radiation -----------------------------
(***************************************************************************)
(* Far-field radiation of a point source (north-east-down axes, take-off    *)
(* measured from down): P amplitude g.M.g, SH phi.M.g, SV theta.M.g.        *)
(* The coefficients of a six-vector M are the six-vector of the symmetrised *)
(* outer product of the two directions.                                     *)
(***************************************************************************)
EXTENDS Tensor
Ray(az, t) == << RCos(az) \otimes RSin(t), RSin(az) \otimes RSin(t), RCos(t) >>
Phi(az, t) == << RNeg(RSin(az)), RCos(az), 0 >>
Theta(az, t) == << RCos(az) \otimes RCos(t), RSin(az) \otimes RCos(t), RNeg(RSin(t)) >>
Motion(ph, az, t) == CASE ph = "p" -> Ray(az, t) [] ph = "sh" -> Phi(az, t) [] ph = "sv" -> Theta(az, t)
Coef(ph, az, t) == Sym(Motion(ph, az, t), Ray(az, t))
MatVec(a, v) == << Dot(a[1], v), Dot(a[2], v), Dot(a[3], v) >>
\* the physical amplitude, from the 3x3 tensor
Amplitude(ph, az, t, m) == Dot(Motion(ph, az, t), MatVec(Six33(m), Ray(az, t)))
\* rotation of a tensor about the vertical
RotZ(w) == << << RCos(w), RNeg(RSin(w)), 0 >>, << RSin(w), RCos(w), 0 >>, << 0, 0, 1 >> >>
Transp(a) == [j \in 1..3 |-> [k \in 1..3 |-> a[k][j]]]
MatMul(a, b) == [j \in 1..3 |-> [k \in 1..3 |-> Dot(a[j], Transp(b)[k])]]
Rotate(m, w) == M33Six(MatMul(MatMul(RotZ(w), Six33(m)), Transp(RotZ(w))))
=============================================================================
