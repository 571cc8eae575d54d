------------------------------ MODULE C13Trace ------------------------------
(***************************************************************************)
(* Trace validation of C13.  An event holds n strike/dip/rake triples and   *)
(* everything the conversion functions derive from them; the reference is   *)
(* the pair (normal, slip) of Tensor.tla, compared up to a joint sign, so   *)
(* angles that describe the same plane and slip count as equal.             *)
(***************************************************************************)
EXTENDS TraceSpec, Tensor
VARIABLE i
\* dips travel through cos(dip) in the compiled code: sqrt(1-h^2) loses ~1e-16/sin(dip), at most 3e-8
Tol(d) == R("1e-10") \oplus RMin2(R("4e-8"), R("1e-15") \oslash RMax2(RAbs(RSin(d)), R("1e-300")))
Nn(e, k) == Normal(e.st[k], e.d[k])
Ss(e, k) == Slip(e.st[k], e.d[k], e.r[k])
TolS(e, k) == Tol(e.d[k]) \oplus Tol(RAcos(RClamp(RAbs(Ss(e, k)[3]), 0, 1)))
Ks(e) == 1..Len(e.st)
PairOf(a, k) == << Normal(a[1][k], a[2][k]), Slip(a[1][k], a[2][k], a[3][k]) >>
RangesOK(a, k) == SDRInRange(a[1][k], a[2][k], a[3][k], R("1e-9"))
IsPlane(a, k, n, s, tol) == LET q == PairOf(a, k) IN SamePair(n, s, q[1], q[2], tol)
Either(a, k, n, s, tol) == IsPlane(a, k, n, s, tol) \/ IsPlane(a, k, s, n, tol)
Interior(e, k) == R("1e-3") \prec e.d[k] /\ e.d[k] \prec (HalfPi \ominus R("1e-3"))
SameAngles(a, e, k) == NearAngle(a[1][k], e.st[k], R("1e-9")) /\ Near(a[2][k], e.d[k], R("1e-9"), 0) /\ NearAngle(a[3][k], e.r[k], R("1e-9"))
Deg(a) == [j \in 1..3 |-> [k \in 1..Len(a[j]) |-> RRad(a[j][k])]]
Sized(a, e) == Len(a) = 3 /\ \A j \in 1..3 : Len(a[j]) = Len(e.st)
Same1(a, b, tol) == SameAxis(a, b, tol)

Failing(e) ==
  IF e.err # "" THEN CK(e.site \o ".accepted", FALSE)
  ELSE
  CK("sizes", \A a \in {e.b_tnp, e.b_fp, e.b_pf, e.aux, e.auxaux, e.mt33, e.p1, e.p2} : Sized(a, e))
  \cup UNION {
    LET n == Nn(e, k) s == Ss(e, k) t == TolS(e, k) IN
    CK("axes.orthonormal", Orthonormal(e.T[k], e.N[k], e.P[k], R("1e-10")))
    \cup CK("axes.tensor", NearV(Scale(1 \oslash R2, Minus(Sym(e.T[k], e.T[k]), Sym(e.P[k], e.P[k]))), DC(n, s), t))
    \cup CK("fp.orthonormal", Near(Norm(e.fn[k]), 1, R("1e-10"), 0) /\ Near(Norm(e.fs[k]), 1, R("1e-10"), 0) /\ Near(Dot(e.fn[k], e.fs[k]), 0, R("1e-10"), 0))
    \cup CK("fp.vectors", SamePair(n, s, e.fn[k], e.fs[k], t))
    \cup CK("range", \A a \in {e.b_tnp, e.b_fp, e.b_pf, e.aux, e.auxaux, e.mt33, Deg(e.p1), Deg(e.p2)} : RangesOK(a, k))
    \cup CK("axes.back", Either(e.b_tnp, k, n, s, t))
    \cup CK("fp.back", IsPlane(e.b_fp, k, n, s, t) /\ (Interior(e, k) => SameAngles(e.b_fp, e, k)))
    \cup CK("fp.swapped", IsPlane(e.b_pf, k, s, n, t))
    \cup CK("aux.plane", IsPlane(e.aux, k, s, n, t))
    \cup CK("aux.involution", IsPlane(e.auxaux, k, n, s, t) /\ (Interior(e, k) => SameAngles(e.auxaux, e, k)))
    \cup CK("sdsd.planes", \/ (Same1(Normal(e.sdsd[1][k], e.sdsd[2][k]), n, t) /\ Same1(Normal(e.sdsd[3][k], e.sdsd[4][k]), s, t))
                           \/ (Same1(Normal(e.sdsd[1][k], e.sdsd[2][k]), s, t) /\ Same1(Normal(e.sdsd[3][k], e.sdsd[4][k]), n, t)))
    \cup CK("sdsd.vectors", (Same1(e.sn[k], n, t) /\ Same1(e.ss[k], s, t)) \/ (Same1(e.sn[k], s, t) /\ Same1(e.ss[k], n, t)))
    \cup CK("fp.axes", Same1(e.T2[k], Tof(n, s), t) /\ Same1(e.P2[k], Pof(n, s), t) /\ Orthonormal(e.T2[k], e.N2[k], e.P2[k], R("1e-10")))
    \cup CK("pf.axes", Same1(e.T3[k], Tof(n, s), t) /\ Same1(e.P3[k], Pof(n, s), t) /\ Orthonormal(e.T3[k], e.N3[k], e.P3[k], R("1e-10")))
    \cup CK("tensor.angles", Either(e.mt33, k, n, s, t))
    \cup CK("reported.plane", Either(Deg(e.p1), k, n, s, t))
    \cup CK("reported.auxiliary", LET q == PairOf(Deg(e.p1), k) IN IsPlane(Deg(e.p2), k, q[2], q[1], t))
    : k \in Ks(e) }

TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
