------------------------------ MODULE C14Trace ------------------------------
(* Trace validation of C14 against Tensor.tla *)
EXTENDS TraceSpec, Tensor
VARIABLE i
Ln6(v) == RMax2(Norm(v), R("1e-300"))
Unit3(e) == Scale(1 \oslash RMax2(Norm(e), R("1e-300")), e)
Loss(d) == RMin2(R("6e-8"), R("2e-15") \oslash RMax2(RCos(d), R("1e-300")))
EigClauses(e) ==
  UNION { LET nrm == Ln6(e.mt[k]) IN
     CK("eig.real", \A v \in {e.T[k], e.N[k], e.P[k], e.E[k]} : Len(v) = 3 /\ AllFinite(v))
     \cup CK("eig.orthonormal", Orthonormal(e.T[k], e.N[k], e.P[k], R("1e-11")))
     \cup CK("eig.order", e.E[k][2] \preceq e.E[k][1] /\ e.E[k][3] \preceq e.E[k][2])
     \cup CK("eig.rebuild", NearV(Rebuild(e.E[k], e.T[k], e.N[k], e.P[k]), e.mt[k], R("1e-11") \otimes nrm))
     : k \in 1..Len(e.mt) }
HudsonTol == R("1e-12")
TypeClauses(e) ==
  UNION { LET E0 == e.Es[k] ref == Desc(E0) u == Unit3(ref) g == e.g[k] d == e.d[k] uv == HudsonUV(HudsonTK(E0)) tk == HudsonTK(E0) IN
     CK("lune.range", LuneInRange(g, d, R("1e-12")))
     \cup CK("lune.inverse", NearV(LuneE(g, d), u, R("1e-12") \oplus Loss(d)))
     \cup CK("lune.map", NearV(e.GE[k], LuneE(g, d), R("1e-13")))
     \cup CK("hudson.range", RAbs(e.u[k]) \preceq (R("4") \oslash 3 \oplus R("1e-12")) /\ RAbs(e.v[k]) \preceq (1 \oplus R("1e-12")))
     \cup CK("hudson.tauk", Near(e.tau[k], tk[1], HudsonTol, 0) /\ Near(e.kk[k], tk[2], HudsonTol, 0))
     \cup CK("hudson.uv", Near(e.u[k], uv[1], HudsonTol, 0) /\ Near(e.v[k], uv[2], HudsonTol, 0))
     \cup CK("hudson.direct", Near(e.uv2[1][k], e.u[k], R("1e-15"), 0) /\ Near(e.uv2[2][k], e.v[k], R("1e-15"), 0))
     \* the anchor points
     \cup (IF e.at = k THEN
             (CASE e.spectrum = "dc" -> CK("hudson.dc", Near(e.u[k], 0, R("1e-12"), 0) /\ Near(e.v[k], 0, R("1e-12"), 0))
                [] e.spectrum = "isoplus" -> CK("hudson.iso", Near(e.u[k], 0, R("1e-12"), 0) /\ Near(e.v[k], 1, R("1e-12"), 0))
                [] e.spectrum = "isominus" -> CK("hudson.iso", Near(e.u[k], 0, R("1e-12"), 0) /\ Near(e.v[k], -1, R("1e-12"), 0))
                [] e.spectrum = "clvdplus" -> CK("hudson.clvd", Near(e.u[k], -1, R("1e-12"), 0) /\ Near(e.v[k], 0, R("1e-12"), 0))
                [] e.spectrum = "clvdminus" -> CK("hudson.clvd", Near(e.u[k], 1, R("1e-12"), 0) /\ Near(e.v[k], 0, R("1e-12"), 0))
                [] OTHER -> {}) ELSE {})
     \* the values for the same source, scaled and in decreasing order
     \cup CK("type.invariant", LET l == Loss(d) \oplus Loss(e.d0[k]) \oplus R("1e-12") IN
              NearV(LuneE(g, d), LuneE(e.g0[k], e.d0[k]), l) /\ Near(e.u0[k], e.u[k], R("1e-12"), 0) /\ Near(e.v0[k], e.v[k], R("1e-12"), 0))
     : k \in 1..Len(e.Es) }
  \cup CK("type.batch", \A k \in 1..Len(e.Es) : REq(e.g1[k], e.g[k]) /\ REq(e.d1[k], e.d[k]))
  \* coordinates of the 3x3 tensor and in the reported results
  \cup CK("type.tensor", \A k \in 1..Len(e.Es) : NearV(LuneE(e.g33[k], e.d33[k]), Unit3(Desc(e.Es[k])), R("1e-11") \oplus Loss(e.d33[k])))
  \cup CK("type.reported", \A k \in 1..Len(e.Es) :
        /\ NearV(LuneE(e.og[k], e.od[k]), Unit3(Desc(e.Es[k])), R("1e-11") \oplus Loss(e.od[k]))
        /\ Near(e.ou[k], e.u[k], R("1e-10"), 0) /\ Near(e.ov[k], e.v[k], R("1e-10"), 0))
CdcClauses(e) ==
  UNION { LET a == e.a[k] nu == e.nu[k] c == RCos(a) g == e.g[k] d == e.d[k]
              half == REq(a, HalfPi)
              tolA == R("1e-11") \oplus RMin2(R("6e-8"), R("1e-14") \oslash RMax2(RSin(a), R("1e-300")))
              tolN == R("1e-10") \oplus RMin2(R("10"), R("1e-14") \oslash RMax2((1 \oplus nu) \otimes c, R("1e-300")))
                      \oplus RMin2(R("1e-6"), R("1e-14") \oslash (R("0.5") \ominus nu))
          IN CK("cdc.range", LuneInRange(g, d, R("1e-12")))
             \cup CK("cdc.lune", half \/ NearV(LuneE(g, d), Unit3(Desc(CdcE(a, nu))), R("1e-11") \oplus Loss(d)))
             \cup CK("cdc.dc", half => (Near(g, 0, R("1e-12"), 0) /\ Near(d, 0, R("1e-12"), 0)))
             \cup CK("cdc.angle", Near(e.ab[k], a, tolA, 0))
             \cup CK("cdc.poisson", half \/ Near(e.nub[k], nu, tolN, 0))
          : k \in 1..Len(e.a) }
\* Frobenius norm of the Kelvin matrix
KNorm(c) == RSqrt(RSum([q \in 1..36 |-> RSq(CK6(c, ((q - 1) \div 6) + 1, ((q - 1) % 6) + 1))]))
S1(c) == RSum(<< c[1], c[7], c[12] >>)
S2(c) == RSum(<< c[2], c[3], c[8] >>)
S3(c) == RSum(<< c[16], c[19], c[21] >>)
AvgMu(c) == ((S1(c) \oplus (3 \otimes S3(c))) \ominus S2(c)) \oslash 15
AvgL(c) == (((S1(c) \ominus (2 \otimes S3(c))) \oplus (4 \otimes S2(c)))) \oslash 15
StiffClauses(e) ==
  LET kn == KNorm(e.c) IN
  CK("stiff.kelvin", \A r \in 1..6 : \A q \in 1..6 : Near(e.kelvin[r][q], CK6(e.c, r, q), 0, R("1e-14")))
  \cup CK("stiff.norm", Near(e.cnorm, kn, 0, R("1e-13")))
  \cup CK("potency.inverse", NearV(Stiff(e.c, e.pot), e.mt, (R("1e-14") \otimes kn) \otimes Ln6(e.pot)))
  \cup CK("potency.recover", NearV(e.pot2, e.d0, (R("1e-14") \otimes e.cond) \otimes Ln6(e.d0)))
  \cup CK("isotropic.average", NearV(e.avg, IsoC(AvgL(e.c), AvgMu(e.c)), R("1e-13") \otimes kn))
  \cup CK("isotropic.lame", NearV(e.iso, IsoC(e.l, e.m), R("1e-14") \otimes RMax2(RAbs(e.l), RAbs(e.m)) \otimes 4))
  \cup CK("isotropic.test", e.isiso = e.expectiso /\ e.isiso2)
Failing(e) == IF e.err # "" THEN CK(e.op \o "." \o e.site \o ".accepted", FALSE)
              ELSE CASE e.op = "eig" -> EigClauses(e) [] e.op = "type" -> TypeClauses(e) [] e.op = "cdc" -> CdcClauses(e) [] OTHER -> StiffClauses(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
