------------------------------ MODULE C12Trace ------------------------------
(***************************************************************************)
(* Trace validation of C12.  The reference is TapeSix of Tensor.tla; an     *)
(* event holds n sources, their Tape parameters and the tensors rebuilt     *)
(* from them.                                                               *)
(***************************************************************************)
EXTENDS TraceSpec, Tensor
VARIABLE i
Inv(x) == R("2e-15") \oslash RMax2(x, R("1e-300"))
Loss(x) == RMin2(R("6e-8"), Inv(x))
\* rounding: delta comes from an arc cosine, dip from h = cos(dip)
Tol(g, d, h) == R("1e-11") \oplus Loss(RCos(d)) \oplus Loss(RSqrt(RMax2(0, 1 \ominus (h \otimes h))))
InRange(p, k) ==
  /\ LuneInRange(p[1][k], p[2][k], R("1e-9"))
  /\ RNeg(R("1e-9")) \preceq p[3][k] /\ p[3][k] \preceq (TwoPi \oplus R("1e-9"))
  /\ RNeg(R("1e-9")) \preceq p[4][k] /\ p[4][k] \preceq (1 \oplus R("1e-9"))
  /\ RAbs(p[5][k]) \preceq (HalfPi \oplus R("1e-9"))
H1(h) == RClamp(h, 0, 1)
SixOf(p, k) == TapeSix(p[1][k], p[2][k], p[3][k], H1(p[4][k]), p[5][k])
\* the compiled auxiliary plane works from cos(dip) of the other plane as well
HorizontalSlip(p, k) == LET v == Slip(p[3][k], RAcos(H1(p[4][k])), p[5][k]) IN Norm(<< v[1], v[2] >>)
TolP(p, k) == Tol(p[1][k], p[2][k], H1(p[4][k])) \oplus Loss(HorizontalSlip(p, k))
Sized(p, n) == Len(p) = 5 /\ \A j \in 1..5 : Len(p[j]) = n
N(e) == Len(e.mt)
MtClauses(e) ==
  CK("mt.sizes", Sized(e.tape, N(e)) /\ Sized(e.oc, N(e)) /\ Len(e.rebuilt) = N(e))
  \cup UNION {
     CK("tape.range", InRange(e.tape, k))
     \cup CK("tape.describes", NearV(SixOf(e.tape, k), e.mt[k], TolP(e.tape, k)))
     \cup CK("tape.roundtrip", NearV(e.rebuilt[k], e.mt[k], TolP(e.tape, k)))
     \cup CK("tape.norm", Near(Norm(e.rebuilt[k]), 1, R("1e-10"), 0))
     \cup CK("reported.range", InRange(e.oc, k))
     \cup CK("reported.describes", NearV(SixOf(e.oc, k), e.mt[k], TolP(e.oc, k)))
     \cup CK("six.33", \A r \in 1..3 : NearV(e.m33[k][r], Six33(e.mt[k])[r], R("1e-13")))
     \cup CK("six.back", NearV(e.back6[k], e.mt[k], R("1e-13")))
     \cup (IF k = e.at /\ e.dc THEN CK("dc.lune", Near(e.tape[1][k], 0, R("1e-10"), 0) /\ Near(e.tape[2][k], 0, R("1e-10"), 0)
                                               /\ Near(e.oc[1][k], 0, R("1e-10"), 0) /\ Near(e.oc[2][k], 0, R("1e-10"), 0)) ELSE {})
     : k \in 1..N(e) }
\* parameters are recovered where they are determined: distinct eigenvalues, neither plane horizontal or vertical, |slip| < pi/2
Gap(g, d) == LET l == LuneE(g, d) IN RMin2(l[1] \ominus l[2], l[2] \ominus l[3])
Determined(p, k) == /\ R("1e-3") \prec Gap(p[1][k], p[2][k])
                    /\ R("1e-3") \prec p[4][k] /\ p[4][k] \prec R("0.999")
                    /\ RAbs(p[5][k]) \prec (HalfPi \ominus R("1e-3"))
                    /\ R("1e-3") \prec RAbs(Slip(p[3][k], RAcos(p[4][k]), p[5][k])[3])
ParClauses(e) ==
  CK("par.sizes", Sized(e.back, Len(e.par[1])) /\ Len(e.mts) = Len(e.par[1]))
  \cup UNION {
     CK("par.norm", Near(Norm(e.mts[k]), 1, R("1e-10"), 0))
     \cup CK("par.tensor", NearV(e.mts[k], SixOf(e.par, k), TolP(e.par, k)))
     \cup CK("par.33", LET a == SixOf(e.par, k) IN NearV(UnitSix(M33Six(e.m33[k])), a, TolP(e.par, k))
                       /\ \A r \in 1..3 : NearV(e.m33[k][r], Six33(a)[r], TolP(e.par, k)))
     \cup CK("par.axes", Orthonormal(e.T[k], e.N[k], e.P[k], R("1e-10")) /\ NearV(Rebuild(e.E[k], e.T[k], e.N[k], e.P[k]), SixOf(e.par, k), TolP(e.par, k))
                         /\ NearV(e.E[k], LuneE(e.par[1][k], e.par[2][k]), R("1e-12")))
     \cup CK("back.range", InRange(e.back, k))
     \cup CK("back.tensor", NearV(SixOf(e.back, k), SixOf(e.par, k), TolP(e.par, k) \oplus TolP(e.back, k)))
     \cup CK("back.latitude", Near(e.back[2][k], e.par[2][k], R("1e-10") \oplus Loss(RCos(e.par[2][k])), 0))
     \cup CK("back.longitude", Near(e.back[1][k], e.par[1][k], R("1e-10") \oplus RMin2(R("1.1"), R("1e-13") \oslash RMax2(RCos(e.par[2][k]), R("1e-300"))), 0))
     \cup (IF Determined(e.par, k)
           THEN CK("back.orientation", NearAngle(e.back[3][k], e.par[3][k], R("1e-9")) /\ Near(e.back[4][k], e.par[4][k], R("1e-9"), 0)
                                       /\ Near(e.back[5][k], e.par[5][k], R("1e-9"), 0)) ELSE {})
     : k \in 1..Len(e.par[1]) }
Failing(e) == IF e.err # "" THEN CK(e.op \o "." \o e.site \o ".accepted", FALSE)
              ELSE IF e.op = "mt" THEN MtClauses(e) ELSE ParClauses(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
