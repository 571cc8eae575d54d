------------------------------ MODULE C20Trace ------------------------------
(***************************************************************************)
(* The compiled and the pure-Python implementation compared with each      *)
(* other.  An event is the same scenario performed twice: e.a with some of  *)
(* the extension modules (e.ext), e.b with none of them.  Everything that   *)
(* is not an output is an input and has to be the same in both (otherwise   *)
(* the comparison would be worthless).                                      *)
(***************************************************************************)
EXTENDS TraceSpec, Tensor, FiniteSets
VARIABLE i

(* ---- values ---- *)
Num(x, y, at, rt) == (RIsNaN(x) /\ RIsNaN(y)) \/ REq(x, y) \/ (RIsFinite(x) /\ RIsFinite(y) /\ RAbs(x \ominus y) \preceq (at \oplus (rt \otimes RMax2(RAbs(x), RAbs(y)))))
RECURSIVE Val(_, _, _, _)
Val(x, y, at, rt) == IF IsNum(x) THEN IsNum(y) /\ Num(x, y, at, rt)
                     ELSE IF x = y THEN TRUE
                     ELSE Len(x) = Len(y) /\ \A k \in 1..Len(x) : Val(x[k], y[k], at, rt)
\* log-probabilities: 1 + erf loses what is below 1e-16, so values far down are compared with what is left of them
Lost(x, y) == R("1e-15") \otimes RExp(RMin2(27, RMax2(RNeg(RMax2(x, y)), 0)))
Ln(x, y, t) == \/ RIsNaN(x) /\ RIsNaN(y)
               \/ REq(x, y)
               \/ RIsFinite(x) /\ RIsFinite(y) /\ RAbs(x \ominus y) \preceq ((t \oplus Lost(x, y)) \oplus (R("1e-12") \otimes RAbs(x)))
               \/ REq(x, RNegInf) /\ y \prec -30
               \/ REq(y, RNegInf) /\ x \prec -30
LnMat(a, b, t) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Len(a[r]) = Len(b[r]) /\ \A c \in 1..Len(a[r]) : Ln(a[r][c], b[r][c], t)
LnSeq(a, b, t) == Len(a) = Len(b) /\ \A r \in 1..Len(a) : Ln(a[r], b[r], t)
Small == R("1e-9")
\* conditioning of the ratio density in its fractional uncertainties: the exponent is a difference of terms of order 1/f^2
Cond(fs) == Small \oplus (R("4e-15") \otimes RSum([k \in 1..Len(fs) |-> 1 \oslash RSq(fs[k])]))
Max1(f) == RMaxSeq([k \in 1..Len(f) |-> IF RIsFinite(f[k]) THEN RAbs(f[k]) ELSE 0])

(* ---- inputs ---- *)
Same(e, outs) == CK("inputs", DOMAIN e.a = DOMAIN e.b /\ \A f \in DOMAIN e.a \ outs : e.a[f] = e.b[f])
Failed(x) == x # ""

(* ---- C01: the posterior of candidates given ---- *)
Fracs(o) == IF o.fn = "ratio" THEN << RAbs(o.err[1] \oslash o.meas[1]), RAbs(o.err[2] \oslash o.meas[2]) >> ELSE << >>
PosteriorTol(e) == RSum([k \in 1..Len(e.a.obs) |-> IF e.a.obs[k].fn = "ratio" THEN Cond(Fracs(e.a.obs[k])) ELSE R("1e-11")]) \oplus Small
At(v, m, r) == LET c == {k \in 1..Len(v.cols) : v.cols[k] = m} IN IF c = {} THEN RNegInf ELSE v.lnp[r][CHOOSE k \in c : TRUE]
Task(e) ==
  LET t == PosteriorTol(e)  rows == IF e.a.marg THEN 1 ELSE Len(e.a.w)
  IN CK("posterior", \A m \in 1..Len(e.a.mts) : \A r \in 1..rows : Ln(At(e.a, m, r), At(e.b, m, r), t))
     \cup CK("tried", e.a.n = e.b.n)

(* ---- C05: acceptance of proposals ---- *)
Formed(v) == \A k \in 1..Len(v.moves) : /\ R("1e-9") \prec v.px[k] /\ R("1e-9") \prec v.py[k]
                                          /\ (v.moves[k] \in {"up", "down"} \/ (R("1e-290") \prec v.txy[k] /\ R("1e-290") \prec v.tyx[k]))
Accept(e) ==
  IF e.a.op = "pair" THEN
    \* priors and densities which cannot be formed (0/0) have no ratio
    CK("acceptance", Formed(e.b) => (Num(e.a.a, e.b.a, R("1e-12"), R("1e-6")) /\ Num(e.a.b, e.b.b, R("1e-12"), R("1e-6"))))
    \cup CK("densities", \A f \in {"px", "py", "txy", "tyx", "bal"} : Val(e.a[f], e.b[f], R("1e-300"), Small))
  ELSE IF e.a.op = "batch" THEN CK("accepted", e.a.outcomes = e.b.outcomes) \cup CK("densities", Val(e.a.px, e.b.px, 0, Small) /\ Val(e.a.py, e.b.py, 0, Small))
  ELSE CK("densities", \A f \in {"p", "pdc", "pauto", "p0", "cells"} : Val(e.a[f], e.b[f], 0, Small))

(* ---- C12-C14: conversions ---- *)
\* where the answer is a continuous function of the input, it is compared as it is; elsewhere (nodal planes of a horizontal or
\* vertical plane or a pure dip slip, axes of equal eigenvalues, the poles of the lune) through the tensor it stands for
Gap(g, d) == LET E == LuneE(g, d) IN RMin2(E[1] \ominus E[2], E[2] \ominus E[3])
Clear(g, d, h, s) == /\ R("1e-3") \prec Gap(g, d) /\ R("1e-3") \prec h /\ h \prec R("0.999999") /\ RAbs(s) \prec (HalfPi \ominus R("1e-3"))
Five(x, y) == \* one source: gamma, delta, kappa, h, sigma
  /\ NearV(LuneE(x[1], x[2]), LuneE(y[1], y[2]), R("1e-6"))
  /\ IF Clear(x[1], x[2], x[4], x[5])
     THEN Near(x[1], y[1], R("1e-6"), 0) /\ Near(x[2], y[2], R("1e-6"), 0) /\ NearAngle(x[3], y[3], R("1e-5")) /\ Near(x[4], y[4], R("1e-6"), 0) /\ Near(x[5], y[5], R("1e-5"), 0)
     ELSE NearV(TapeSix(x[1], x[2], x[3], x[4], x[5]), TapeSix(y[1], y[2], y[3], y[4], y[5]), R("1e-5"))
Col(t, k) == [q \in 1..5 |-> t[q][k]]
Fives(a, b) == Len(a) = 5 /\ Len(b) = 5 /\ \A q \in 1..5 : Len(a[q]) = Len(b[1]) /\ Len(b[q]) = Len(b[1]) /\ \A k \in 1..Len(b[1]) : Five(TLCEval(Col(a, k)), TLCEval(Col(b, k)))
Tape(e) ==
  IF e.a.op = "mt" THEN CK("tape", Fives(e.a.tape, e.b.tape)) \cup CK("tape-output", Fives(e.a.oc, e.b.oc)) \cup CK("tape-tensor", Val(e.a.rebuilt, e.b.rebuilt, R("1e-7"), 0))
                        \cup CK("six33", Val(e.a.m33, e.b.m33, Small, 0) /\ Val(e.a.back6, e.b.back6, Small, 0))
  ELSE CK("tape-tensor", Val(e.a.mts, e.b.mts, Small, 0) /\ Val(e.a.m33, e.b.m33, Small, 0)) \cup CK("tape-axes", \A f \in {"T", "N", "P", "E"} : Val(e.a[f], e.b[f], Small, 0))
       \cup CK("tape", Fives(e.a.back, e.b.back))

DCof(x) == DC(Normal(x[1], x[2]), Slip(x[1], x[2], x[3]))
Plane(x, y) == /\ NearV(DCof(x), DCof(y), R("1e-5"))
               /\ (R("1e-3") \prec x[2] /\ x[2] \prec (HalfPi \ominus R("1e-3"))) => (NearAngle(x[1], y[1], R("1e-5")) /\ Near(x[2], y[2], R("1e-5"), 0) /\ NearAngle(x[3], y[3], R("1e-5")))
Row3(a, k) == << a[1][k], a[2][k], a[3][k] >>
Planes(a, b) == \A q \in 1..3 : Len(a[q]) = Len(b[1]) /\ Len(b[q]) = Len(b[1]) /\ \A k \in 1..Len(b[1]) : Plane(TLCEval(Row3(a, k)), TLCEval(Row3(b, k)))
\* the double couple two planes stand for, whichever comes first
SameDC(a, b) == \A k \in 1..Len(b[1]) : NearV(DCof(Row3(a, k)), DCof(Row3(b, k)), R("1e-5"))
Deg(a) == [q \in 1..3 |-> [k \in 1..Len(a[q]) |-> RRad(a[q][k])]]
Either(e) == \* both planes, in any order
  \A k \in 1..Len(e.b.p1[1]) :
    LET a1 == TLCEval(Row3(Deg(e.a.p1), k)) a2 == TLCEval(Row3(Deg(e.a.p2), k)) b1 == TLCEval(Row3(Deg(e.b.p1), k)) b2 == TLCEval(Row3(Deg(e.b.p2), k))
        near(x, y) == LET n == Normal(x[1], x[2]) m == Normal(y[1], y[2]) IN SameAxis(n, m, R("1e-4"))
    IN /\ NearV(DCof(a1), DCof(b1), R("1e-5")) /\ NearV(DCof(a2), DCof(b2), R("1e-5"))
       /\ ((near(a1, b1) /\ near(a2, b2)) \/ (near(a1, b2) /\ near(a2, b1)))
Geometry(e) ==
  CK("axes", \A f \in {"T", "N", "P", "T2", "N2", "P2", "T3", "N3", "P3"} : Val(e.a[f], e.b[f], Small, 0))
  \cup CK("normals", Val(e.a.fn, e.b.fn, Small, 0) /\ Val(e.a.fs, e.b.fs, Small, 0))
  \cup CK("auxiliary", Planes(e.a.aux, e.b.aux)) \cup CK("auxiliary-twice", SameDC(e.a.auxaux, e.b.auxaux)) \cup CK("planes", Planes(e.a.b_fp, e.b.b_fp) /\ Planes(e.a.b_pf, e.b.b_pf))
  \cup CK("axes-plane", Planes(e.a.b_tnp, e.b.b_tnp)) \cup CK("both-planes", Either(e))

Eig(e) == \A k \in 1..Len(e.b.E) :
  LET E == e.b.E[k]  F == e.a.E[k]  top == RMaxSeq(<< RAbs(E[1]), RAbs(E[2]), RAbs(E[3]) >>)
      t(v) == v[k]  far(j) == \A q \in 1..3 : q # j => (R("1e-4") \otimes top) \prec RAbs(E[q] \ominus E[j])
  IN /\ \A j \in 1..3 : Near(E[j], F[j], R("1e-12") \otimes top, 0)
     /\ (far(1) => SameAxis(e.a.T[k], e.b.T[k], R("1e-9"))) /\ (far(2) => SameAxis(e.a.N[k], e.b.N[k], R("1e-9"))) /\ (far(3) => SameAxis(e.a.P[k], e.b.P[k], R("1e-9")))
     /\ NearV(Scale(1 \oslash top, Rebuild(E, e.b.T[k], e.b.N[k], e.b.P[k])), Scale(1 \oslash top, Rebuild(F, e.a.T[k], e.a.N[k], e.a.P[k])), Small)
Lunes(g, d, h, f) == Len(g) = Len(h) /\ Len(d) = Len(f) /\ \A k \in 1..Len(g) : NearV(LuneE(g[k], d[k]), LuneE(h[k], f[k]), R("1e-6"))
Source(e) ==
  CASE e.a.op = "eig" -> CK("eigen", Eig(e))
    [] e.a.op = "type" -> CK("hudson", \A f \in {"tau", "kk", "u", "v", "uv2", "u0", "v0", "ou", "ov"} : Val(e.a[f], e.b[f], R("1e-8"), 0))
         \cup CK("lune", Lunes(e.a.g, e.a.d, e.b.g, e.b.d) /\ Lunes(e.a.g0, e.a.d0, e.b.g0, e.b.d0) /\ Lunes(e.a.g1, e.a.d1, e.b.g1, e.b.d1) /\ Lunes(e.a.g33, e.a.d33, e.b.g33, e.b.d33)
                         /\ Lunes(e.a.og, e.a.od, e.b.og, e.b.od) /\ Val(e.a.GE, e.b.GE, Small, 0))
    [] e.a.op = "cdc" -> CK("crack", Val(e.a.g, e.b.g, R("1e-8"), 0) /\ Val(e.a.d, e.b.d, R("1e-8"), 0) /\ Val(e.a.ab, e.b.ab, R("1e-6"), 0))
    [] OTHER -> LET t == R("1e-12") \otimes RMax2(1, e.a.cond)
                IN CK("stiffness", /\ Val(e.a.pot, e.b.pot, t \otimes (1 \oplus Max1(e.b.pot)), 0) /\ Val(e.a.pot2, e.b.pot2, t \otimes (1 \oplus Max1(e.b.pot2)), 0)
                                   /\ Val(e.a.kelvin, e.b.kelvin, 0, Small) /\ Val(e.a.cnorm, e.b.cnorm, 0, Small) /\ Val(e.a.avg, e.b.avg, Small, Small) /\ Val(e.a.iso, e.b.iso, Small, Small)
                                   /\ e.a.isiso = e.b.isiso /\ e.a.isiso2 = e.b.isiso2)

(* ---- populations: what two independent samples of the same distribution show ---- *)
Two(c, n, d, m) == \* counts c of n and d of m
  (n = 0 /\ m = 0) \/
  LET p == (c \oplus d) \oslash (n + m)  w == (1 \oslash n) \oplus (1 \oslash m)
  IN n > 0 /\ m > 0 /\ RAbs((c \oslash n) \ominus (d \oslash m)) \preceq ((8 \otimes RSqrt((p \otimes (1 \ominus p)) \otimes w)) \oplus (12 \otimes w))
TwoSeq(c, n, d, m) == Len(c) = Len(d) /\ \A k \in 1..Len(c) : Two(c[k], n, d[k], m)
TwoCdf(c, n, d, m) == Len(c) = Len(d) /\ \A k \in 1..Len(c) : REq(c[k][1], d[k][1]) /\ Two(c[k][2], n, d[k][2], m)
Draws(e) ==
  LET a == e.a b == e.b
  IN IF a.op = "draws" THEN
       CK("jumps", Two(a.jumps, a.total, b.jumps, b.total) /\ Two(a.jumpskeep, a.total, b.jumpskeep, b.total))
       \cup CK("shifts", DOMAIN a.counts = DOMAIN b.counts /\ \A q \in DOMAIN a.counts : TwoCdf(a.counts[q], a.shifts, b.counts[q], b.shifts))
       \cup CK("joint", Len(a.joint) = Len(b.joint) /\ \A k \in 1..Len(a.joint) : Two(a.joint[k][5], a.shifts, b.joint[k][5], b.shifts))
       \cup CK("balance", TwoCdf(a.balg, a.jumps, b.balg, b.jumps) /\ TwoCdf(a.bald, a.jumps, b.bald, b.jumps))
     ELSE CK("balance", /\ TwoCdf(a.balg, a.total, b.balg, b.total) /\ TwoCdf(a.bald, a.total, b.bald, b.total) /\ Two(a.jumpskeep, a.total, b.jumpskeep, b.total)
                        /\ TwoCdf(a.pairg, a.pairs, b.pairg, b.pairs) /\ TwoCdf(a.paird, a.pairs, b.paird, b.pairs))
Sources(e) ==
  LET a == e.a b == e.b
  IN CK("drawn", a.total = b.total /\ a.asked = b.asked)
     \cup (IF a.kind = "mt" THEN CK("projections", Len(a.proj) = Len(b.proj) /\ \A k \in 1..Len(a.proj) : TwoSeq(a.proj[k], a.total, b.proj[k], b.total))
           ELSE CK("axis-populations", Len(a.axis) = Len(b.axis) /\ \A k \in 1..Len(a.axis) : TwoSeq(a.axis[k], a.total, b.axis[k], b.total))
                \cup CK("twists", TwoSeq(a.twist, a.total, b.twist, b.total) /\ \A q \in 1..4 : TwoSeq(a.joint[q], a.total, b.joint[q], b.total)))
Fronts(e) == \* whole searches: how much of the sphere is kept, where, and how probable it is
  LET a == e.a b == e.b
  IN CK("kept", Two(a.kept, a.tried, b.kept, b.tried))
     \cup CK("where", Len(a.proj) = Len(b.proj) /\ \A k \in 1..Len(a.proj) : TwoSeq(a.proj[k], a.kept, b.proj[k], b.kept))
     \cup CK("how-probable", Len(a.levels) = Len(b.levels) /\ TwoSeq(a.levels, a.kept, b.levels, b.kept))

Outs == [c01 |-> {"lnp", "cols", "n", "error"}, c02 |-> {"lnp", "opp", "err"}, c03 |-> {"lnp", "pdf", "f", "err"}, c04 |-> {"y", "ys", "err", "unchanged"},
         c05 |-> {"a", "b", "probes", "bprobes", "px", "py", "txy", "tyx", "bal", "outcomes", "p", "pdc", "pauto", "p0", "cells", "error"},
         c12 |-> {"tape", "rebuilt", "oc", "m33", "back6", "mts", "T", "N", "P", "E", "back", "err"},
         c13 |-> {"T", "N", "P", "fn", "fs", "b_tnp", "b_fp", "b_pf", "aux", "auxaux", "sdsd", "sn", "ss", "T2", "N2", "P2", "T3", "N3", "P3", "mt33", "p1", "p2", "err"},
         c14 |-> {"T", "N", "P", "E", "tau", "kk", "g", "d", "u", "v", "uv2", "g0", "d0", "u0", "v0", "GE", "g1", "d1", "g33", "d33", "og", "od", "ou", "ov", "ab", "nub",
                  "pot", "pot2", "kelvin", "cnorm", "avg", "iso", "isiso", "isiso2", "err"},
         c18 |-> {"got", "names", "expected", "files", "err", "error"},
         c06 |-> {"total", "jumps", "jumpskeep", "halfmoved", "shifts", "counts", "joint", "balg", "bald", "baljoint", "pairg", "paird", "pairlo", "pairhi", "lo", "hi", "finite", "maxnorm", "some",
                  "dcparam", "dcpattern", "error"},
         c08 |-> {"total", "finite", "maxnorm", "s1", "s2", "s4", "lag", "nlag", "across", "nacross", "rad", "proj", "maxpattern", "axis", "positive", "signlag", "twist", "joint"},
         c20 |-> {"err", "y", "mean", "sd", "kept", "tried", "proj", "levels", "vals"}]
Err(v) == IF "err" \in DOMAIN v THEN v.err ELSE IF "error" \in DOMAIN v THEN v.error ELSE ""
Compare(e) ==
  CASE e.fam = "c01" -> Task(e)
    [] e.fam = "c02" -> CK("likelihood", LnMat(e.a.lnp, e.b.lnp, Small)) \cup (IF "opp" \in DOMAIN e.b THEN CK("likelihood", LnMat(e.a.opp, e.b.opp, Small)) ELSE {})
    [] e.fam = "c03" ->
         (CASE e.a.op = "point" -> LET t == Cond(<< e.a.fx, e.a.fy >>) IN CK("ratio", LnSeq(e.a.lnp, e.b.lnp, t) /\ Num(e.a.pdf, e.b.pdf, R("1e-300"), t))
            [] e.a.op = "norm" -> LET t == Cond(<< R(e.a.fx), R(e.a.fy) >>) IN CK("ratio", Val(e.a.f, e.b.f, R("1e-300"), t))
            [] e.a.op = "shape" -> LET t == Cond(e.a.px) \oplus Cond(e.a.py) IN CK("ratio", LnMat(e.a.lnp, e.b.lnp, t))
            [] OTHER -> CK("ratio", LnSeq(e.a.lnp, e.b.lnp, Small)))
    [] e.fam = "c04" -> LET f == << Max1(e.b.y), RAbs(e.a.c), Max1(e.b.ys) >> t == R("1e-10") \oplus (R("1e-13") \otimes RMaxSeq(f)) IN CK("log-domain", Val(e.a.y, e.b.y, t, 0) /\ Val(e.a.ys, e.b.ys, t, 0))
    [] e.fam = "c05" -> Accept(e)
    [] e.fam = "c12" -> Tape(e)
    [] e.fam = "c13" -> Geometry(e)
    [] e.fam = "c14" -> Source(e)
    [] e.fam = "c18" -> CK("binned", e.a.got = e.b.got \/ (Len(e.a.got) = Len(e.b.got) /\ \A k \in 1..Len(e.b.got) : DOMAIN e.a.got[k] = DOMAIN e.b.got[k] /\ \A f \in DOMAIN e.b.got[k] : Val(e.a.got[k][f], e.b.got[k][f], 0, R("1e-12"))))
    [] e.fam = "c06" -> Draws(e)
    [] e.fam = "c08" -> Sources(e)
    [] OTHER -> IF e.a.op = "front" THEN Fronts(e)
                ELSE CK(e.a.op, Len(e.a.vals) = Len(e.b.vals) /\ \A k \in 1..Len(e.b.vals) : Len(e.a.vals[k]) = Len(e.b.vals[k])
                          /\ \A q \in 1..Len(e.b.vals[k]) : Num(e.a.vals[k][q], e.b.vals[k][q], e.a.tol, e.a.tol))
Failing(e) ==
  Same(e, Outs[e.fam] \cup {"err", "error"})
  \cup CK("refusal", Failed(Err(e.a)) = Failed(Err(e.b)))
  \cup (IF Failed(Err(e.a)) \/ Failed(Err(e.b)) THEN {} ELSE Compare(e))
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
