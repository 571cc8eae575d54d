------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Moment tensors (North, East, Down): six-vectors                          *)
(* (xx, yy, zz, r2 xy, r2 xz, r2 yz), double-couple geometry, Tape & Tape   *)
(* lune coordinates, Hudson coordinates, stiffness in Kelvin form.          *)
(* A vector is a 3-sequence, a matrix a sequence of rows.                   *)
(***************************************************************************)
EXTENDS RealArith, TLC
R2 == RSqrt(2)
R3 == RSqrt(3)
R6 == RSqrt(6)
HalfPi == RPi \oslash 2
TwoPi == 2 \otimes RPi
V3(f(_)) == << f(1), f(2), f(3) >>
Dot(a, b) == RDot(a, b)
Norm(a) == RSqrt(RDot(a, a))
Scale(c, a) == [k \in 1..Len(a) |-> c \otimes a[k]]
Plus(a, b) == [k \in 1..Len(a) |-> a[k] \oplus b[k]]
Minus(a, b) == [k \in 1..Len(a) |-> a[k] \ominus b[k]]
Neg(a) == [k \in 1..Len(a) |-> RNeg(a[k])]
Cross(a, b) == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]), (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]), (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
NearV(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], tol, 0)
SameAxis(a, b, tol) == NearV(a, b, tol) \/ NearV(a, Neg(b), tol)
Orthonormal(a, b, c, tol) ==
  /\ \A v \in {a, b, c} : Len(v) = 3 /\ Near(Dot(v, v), 1, tol, 0)
  /\ Near(Dot(a, b), 0, tol, 0) /\ Near(Dot(a, c), 0, tol, 0) /\ Near(Dot(b, c), 0, tol, 0)

\* symmetrised outer product as a six-vector: (a b' + b a')/2
Sym(a, b) == << a[1] \otimes b[1], a[2] \otimes b[2], a[3] \otimes b[3],
                ((a[1] \otimes b[2]) \oplus (a[2] \otimes b[1])) \oslash R2,
                ((a[1] \otimes b[3]) \oplus (a[3] \otimes b[1])) \oslash R2,
                ((a[2] \otimes b[3]) \oplus (a[3] \otimes b[2])) \oslash R2 >>
\* six-vector <-> 3x3
Six33(m) == << << m[1], m[4] \oslash R2, m[5] \oslash R2 >>,
               << m[4] \oslash R2, m[2], m[6] \oslash R2 >>,
               << m[5] \oslash R2, m[6] \oslash R2, m[3] >> >>
M33Six(a) == << a[1][1], a[2][2], a[3][3], R2 \otimes a[1][2], R2 \otimes a[1][3], R2 \otimes a[2][3] >>
UnitSix(m) == Scale(1 \oslash Norm(m), m)
\* E[1] t t' + E[2] n n' + E[3] p p'
Rebuild(E, t, n, p) == Plus(Plus(Scale(E[1], Sym(t, t)), Scale(E[2], Sym(n, n))), Scale(E[3], Sym(p, p)))

(* ---- double-couple geometry ---- *)
StrikeDir(st) == << RCos(st), RSin(st), 0 >>
UpDip(st, d) == << RSin(st) \otimes RCos(d), RNeg(RCos(st) \otimes RCos(d)), RNeg(RSin(d)) >>
Normal(st, d) == << RNeg(RSin(st) \otimes RSin(d)), RCos(st) \otimes RSin(d), RNeg(RCos(d)) >>
Slip(st, d, r) == Plus(Scale(RCos(r), StrikeDir(st)), Scale(RSin(r), UpDip(st, d)))
DC(n, s) == Scale(R2, Sym(n, s))              \* unit double couple
Tof(n, s) == Scale(1 \oslash R2, Plus(n, s))
Pof(n, s) == Scale(1 \oslash R2, Minus(n, s))
\* (n, s) and (-n, -s) are the same faulting
SamePair(n, s, a, b, tol) == (NearV(n, a, tol) /\ NearV(s, b, tol)) \/ (NearV(n, Neg(a), tol) /\ NearV(s, Neg(b), tol))
SDRInRange(st, d, r, tol) ==
  /\ RNeg(tol) \preceq st /\ st \preceq (TwoPi \oplus tol)
  /\ RNeg(tol) \preceq d /\ d \preceq (HalfPi \oplus tol)
  /\ RNeg(RPi) \ominus tol \preceq r /\ r \preceq (RPi \oplus tol)

(* ---- eigenvalues and source type ---- *)
Sorted3(e) == LET mx == RMaxSeq(e) mn == RMinSeq(e) IN << mx, RSum(e) \ominus (mx \oplus mn), mn >>
\* exact middle value (no cancellation)
Desc(e) == LET i == CHOOSE i \in 1..3 : \A j \in 1..3 : e[j] \preceq e[i]
               k == CHOOSE k \in (1..3) \ {i} : \A j \in (1..3) \ {i} : e[k] \preceq e[j]
               m == CHOOSE m \in (1..3) \ {i, k} : TRUE
           IN << e[i], e[m], e[k] >>
LuneE(g, d) == << (((R3 \otimes RCos(g)) \otimes RCos(d)) \ominus (RSin(g) \otimes RCos(d)) \oplus (R2 \otimes RSin(d))) \oslash R6,
                  (((2 \otimes RSin(g)) \otimes RCos(d)) \oplus (R2 \otimes RSin(d))) \oslash R6,
                  (RNeg((R3 \otimes RCos(g)) \otimes RCos(d)) \ominus (RSin(g) \otimes RCos(d)) \oplus (R2 \otimes RSin(d))) \oslash R6 >>
LuneInRange(g, d, tol) == RAbs(g) \preceq ((RPi \oslash 6) \oplus tol) /\ RAbs(d) \preceq (HalfPi \oplus tol)
\* the tensor of a Tape parameter set: strike kappa, cos(dip) h, slip sigma
TapeSix(g, d, k, h, s) ==
  LET dip == RAcos(h) n == Normal(k, dip) sl == Slip(k, dip, s) t == Tof(sl, n) p == Pof(sl, n)
  IN Rebuild(LuneE(g, d), t, Cross(p, t), p)

(* ---- Hudson et al. (1989): tau, k and u, v from eigenvalues M1 >= M3 >= M2 ---- *)
Iso(e) == RSum(e) \oslash 3
HudsonTK(e0) ==
  LET e == Desc(e0)
      iso == Iso(e)
      \* deviatoric parts, the middle one exactly zero when the eigenvalues are equally spaced
      d1 == e[1] \ominus iso  d3 == e[3] \ominus iso  dm == ((2 \otimes e[2]) \ominus (e[1] \oplus e[3])) \oslash 3
      den == RAbs(iso) \oplus RMax2(RAbs(d1), RAbs(d3))
      k == iso \oslash den
      \* d1 and d3 can round to zero for isotropic eigenvalues; |T| <= 1 otherwise and is multiplied by 1-|k| ~ 0 there
      T == IF 0 \prec dm /\ d3 \prec 0 THEN RNeg(2 \otimes dm) \oslash d3 ELSE IF dm \prec 0 /\ 0 \prec d1 THEN (2 \otimes dm) \oslash d1 ELSE 0
  IN << T \otimes (1 \ominus RAbs(k)), k >>
HudsonUV(tk) ==
  LET t == tk[1] k == tk[2]
      f == IF (0 \prec t /\ 0 \prec k) \/ (t \prec 0 /\ k \prec 0)
           THEN IF RAbs(t) \prec (4 \otimes RAbs(k)) THEN 1 \ominus (RAbs(t) \oslash 2) ELSE 1 \ominus (2 \otimes RAbs(k))
           ELSE 1
  IN << t \oslash f, k \oslash f >>

(* ---- stiffness: 21 elements (upper triangle of the Voigt matrix, rows) -> Kelvin matrix ---- *)
Upper(i, j) == ((i-1) * (14 - i)) \div 2 + (j - i + 1)
CV(c, i, j) == c[IF i <= j THEN Upper(i, j) ELSE Upper(j, i)]
CK6(c, i, j) == CV(c, i, j) \otimes (IF i > 3 /\ j > 3 THEN 2 ELSE IF i > 3 \/ j > 3 THEN R2 ELSE 1)
Swap == << 1, 2, 3, 6, 5, 4 >>                \* six-vector order (xy, xz, yz) <-> Voigt order (yz, xz, xy)
Stiff(c, d) == LET dv == [i \in 1..6 |-> d[Swap[i]]]
                   mv == [i \in 1..6 |-> RDot([j \in 1..6 |-> CK6(c, i, j)], dv)]
               IN [i \in 1..6 |-> mv[Swap[i]]]
IsoC(l, m) == [i \in 1..21 |-> IF i \in {1, 7, 12} THEN l \oplus (2 \otimes m) ELSE IF i \in {2, 3, 8} THEN l ELSE IF i \in {16, 19, 21} THEN m ELSE 0]

(* ---- crack + double couple ---- *)
CdcE(a, nu) == \* eigenvalues (up to scale) of a crack of opening angle a in a Poisson solid of ratio nu
  LET l == (2 \otimes nu) \oslash (1 \ominus (2 \otimes nu))   \* lambda/mu
      tr == RCos(a)                            \* trace of the potency n.d
      mid == l \otimes tr
  IN << mid \oplus RCos(a) \oplus 1, mid, mid \oplus RCos(a) \ominus 1 >>
=============================================================================
