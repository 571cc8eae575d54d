------------------------------ MODULE C19Trace ------------------------------
(***************************************************************************)
(* Trace validation of C19: every step of a history of the container does   *)
(* what Container.tla says about it (e.was, e.sel -> e.got), the derived    *)
(* parameters are the source-type and nodal-plane parameters of Tensor.tla  *)
(* and what the stand-alone conversions give, and the projections obey the  *)
(* radius law.                                                              *)
(* e.was, e.got: [mt : seq of six-vectors, prob : seq, conv : seq of [name, v : seq (per sample) of seq of numbers]] *)
(***************************************************************************)
EXTENDS TraceSpec, Tensor, Sequences, FiniteSets
VARIABLE i
EqSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : REq(a[k], b[k])
EqList(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqSeq(a[k], b[k])
Take(x, sel) == TLCEval([k \in 1..Len(sel) |-> x[sel[k]]])
\* the selected samples, all three stores (a conversion that is not carried along is derived again)
\* the clustered normals have no sign
EqOne(name, a, b) == EqSeq(a, b) \/ (name \in {"clustered_N1", "clustered_N2"} /\ EqSeq(a, Neg(b)))
EqConv(name, a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqOne(name, a[k], b[k])
Carried(e) == \A c \in 1..Len(e.got.conv) : \A w \in 1..Len(e.was.conv) : e.got.conv[c].name = e.was.conv[w].name => EqConv(e.got.conv[c].name, e.got.conv[c].v, Take(e.was.conv[w].v, e.sel))
Sized(g) == \A c \in 1..Len(g.conv) : Len(g.conv[c].v) = Len(g.mt)
Selected(e) == CK("Tensors", EqList(e.got.mt, Take(e.was.mt, e.sel))) \cup CK("Converted", Carried(e)) \cup CK("ConvertedSize", Sized(e.got))
Probs(e) == IF e.was.prob = << >> THEN e.got.prob = << >> ELSE EqSeq(e.got.prob, Take(e.was.prob, e.sel))
SelectFails(e) == Selected(e) \cup CK("Probabilities", Probs(e)) \cup CK("ParentKept", EqList(e.after, e.was.mt))
\* e.sel: the replaced samples, e.value: their new tensors
PutFails(e) == CK("Replaced", /\ Len(e.got.mt) = Len(e.was.mt)
                              /\ \A k \in 1..Len(e.was.mt) : IF \E j \in 1..Len(e.sel) : e.sel[j] = k
                                                            THEN EqSeq(e.got.mt[k], e.value[CHOOSE j \in 1..Len(e.sel) : e.sel[j] = k]) ELSE EqSeq(e.got.mt[k], e.was.mt[k]))
               \cup CK("ReplacedSize", Sized(e.got))
Same(a, b) == EqSeq(a, b)
UniqueFails(e) ==
  LET was == e.was.mt  got == e.got.mt
      n(k) == Cardinality({j \in 1..Len(was) : Same(was[j], got[k])})
  IN CK("UniqueOnce", \A a, b \in 1..Len(got) : a # b => ~Same(got[a], got[b]))
     \cup CK("UniqueAll", \A j \in 1..Len(was) : \E k \in 1..Len(got) : Same(was[j], got[k]))
     \cup CK("UniqueCounts", Len(e.got.prob) = Len(got) /\ \A k \in 1..Len(got) : REq(e.got.prob[k], n(k)))
     \cup CK("UniqueTotal", REq(RSum(e.got.prob), Len(was)))
     \cup CK("UniqueConverted", Sized(e.got) /\ \A c \in 1..Len(e.got.conv) : \A w \in 1..Len(e.was.conv) : e.got.conv[c].name = e.was.conv[w].name =>
                 \A k \in 1..Len(got) : \E j \in 1..Len(was) : Same(was[j], got[k]) /\ EqOne(e.got.conv[c].name, e.got.conv[c].v[k], e.was.conv[w].v[j]))
     \* the columns, counts and positions of the reduction itself
     \cup CK("Columns", EqList(e.columns, e.got.mt) /\ EqSeq(e.counts, e.got.prob) /\ \A k \in 1..Len(got) : Same(was[e.at[k]], got[k]))
Best(p) == LET m == RMaxSeq(p) IN SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k : REq(p[k], m))
MaxFails(e) ==
  LET all == TLCEval(Best(e.was.prob))
      f == IF e.single THEN [e EXCEPT !.sel = << all[1] >>] ELSE [e EXCEPT !.sel = all]
      any == \E k \in 1..Len(all) : LET g == [e EXCEPT !.sel = << all[k] >>] IN Selected(g) = {} /\ Probs(g)
  IN IF e.single THEN CK("OneMaximum", any) ELSE CK("Maximum", Selected(f) = {} /\ Probs(f))
MeanFails(e) ==
  LET p == IF e.was.prob = << >> THEN [k \in 1..Len(e.was.mt) |-> 1] ELSE e.was.prob
      total == RSum(p)
      w(j) == RSum([k \in 1..Len(p) |-> p[k] \otimes e.was.mt[k][j]]) \oslash total
      size(j) == RSum([k \in 1..Len(p) |-> RAbs(p[k] \otimes e.was.mt[k][j])]) \oslash total
  IN CK("MeanShape", Len(e.mean) = 6) \cup (IF Len(e.mean) = 6 /\ 0 \prec total THEN CK("Mean", \A j \in 1..6 : Near(e.mean[j], w(j), R("1e-12") \otimes size(j), 0)) ELSE {})

(* ---- derived parameters ---- *)
D(x) == RRad(x)
Loss(x) == RMin2(R("6e-8"), R("2e-15") \oslash RMax2(x, R("1e-300")))
PairOf(st, d, r) == << Normal(D(st), D(d)), Slip(D(st), D(d), D(r)) >>
SumSq(m) == RDot(m, m)
DeriveOne(e, k) ==
  LET m == e.mt[k]
      size == Norm(m)
      u == Scale(1 \oslash size, m)
      E == Scale(1 \oslash size, e.E[k])
      dc == Scale(1 \oslash R2, Minus(Sym(e.T[k], e.T[k]), Sym(e.P[k], e.P[k])))
      a == PairOf(e.st1[k], e.d1[k], e.r1[k])
      b == PairOf(e.st2[k], e.d2[k], e.r2[k])
      ta == R("1e-10") \oplus Loss(RAbs(RSin(D(e.d1[k])))) \oplus Loss(RAbs(RSin(D(e.d2[k]))))
      tg == R("1e-9") \oplus Loss(RCos(e.delta[k]))
      tk == HudsonTK(LuneE(e.gamma[k], e.delta[k]))
      uv == HudsonUV(<< e.tau[k], e.k[k] >>)
      h == RClamp(e.h[k], 0, 1)
  IN CK("d.axes", Orthonormal(e.T[k], e.N[k], e.P[k], R("1e-10")) /\ NearV(Rebuild(E, e.T[k], e.N[k], e.P[k]), u, R("1e-10")))
     \cup CK("d.order", E[2] \preceq (E[1] \oplus R("1e-10")) /\ E[3] \preceq (E[2] \oplus R("1e-10")))
     \cup CK("d.lune", LuneInRange(e.gamma[k], e.delta[k], R("1e-9")) /\ NearV(LuneE(e.gamma[k], e.delta[k]), E, tg))
     \cup CK("d.tk", LET want == HudsonTK(E) IN Near(e.tau[k], want[1], R("1e-8"), 0) /\ Near(e.k[k], want[2], R("1e-8"), 0))
     \cup CK("d.uv", Near(e.u[k], uv[1], R("1e-9"), 0) /\ Near(e.v[k], uv[2], R("1e-9"), 0))
     \cup CK("d.plane", SDRInRange(D(e.st1[k]), D(e.d1[k]), D(e.r1[k]), R("1e-9")) /\ NearV(DC(a[1], a[2]), dc, ta))
     \cup CK("d.auxiliary", SDRInRange(D(e.st2[k]), D(e.d2[k]), D(e.r2[k]), R("1e-9")) /\ SamePair(a[2], a[1], b[1], b[2], ta))
     \cup CK("d.normals", NearV(DC(e.N1[k], e.N2[k]), dc, R("1e-10")))
     \cup CK("d.tape", /\ RNeg(R("1e-9")) \preceq e.h[k] /\ e.h[k] \preceq (1 \oplus R("1e-9")) /\ RAbs(e.sigma[k]) \preceq (HalfPi \oplus R("1e-9"))
                       /\ LET q == << Normal(e.kappa[k], RAcos(h)), Slip(e.kappa[k], RAcos(h), e.sigma[k]) >>
                          IN NearV(DC(q[1], q[2]), dc, ta \oplus Loss(RSqrt(RMax2(0, 1 \ominus RSq(h))))))
     \* the clustered normals are the two normals of the sample, with the rakes of their planes
     \cup CK("d.clustered", \/ /\ SameAxis(e.cN1[k], e.N1[k], R("1e-12")) /\ SameAxis(e.cN2[k], e.N2[k], R("1e-12")) /\ REq(e.cr1[k], e.r1[k]) /\ REq(e.cr2[k], e.r2[k])
                            \/ /\ SameAxis(e.cN1[k], e.N2[k], R("1e-12")) /\ SameAxis(e.cN2[k], e.N1[k], R("1e-12")) /\ REq(e.cr1[k], e.r2[k]) /\ REq(e.cr2[k], e.r1[k]))
     \* e.alone: the stand-alone conversions of this tensor
     \cup CK("d.alone", LET c == e.alone[k] IN
            /\ NearV(e.E[k], c.E, R("1e-10") \otimes size) /\ Near(e.gamma[k], c.gamma, R("1e-9") \oplus RMin2(R("1.1"), R("1e-13") \oslash RMax2(RCos(e.delta[k]), R("1e-300"))), 0)
            /\ Near(e.delta[k], c.delta, R("1e-9") \oplus Loss(RCos(e.delta[k])), 0)
            /\ Near(e.tau[k], c.tau, R("1e-8"), 0) /\ Near(e.k[k], c.k, R("1e-8"), 0) /\ Near(e.u[k], c.u, R("1e-7"), 0) /\ Near(e.v[k], c.v, R("1e-7"), 0))
\* parameters given with the samples (an MTfit output) describe the samples
DeriveFails(e) ==
  LET n == Len(e.mt) names == {"E", "T", "N", "P", "gamma", "delta", "tau", "k", "u", "v", "st1", "d1", "r1", "st2", "d2", "r2", "kappa", "h", "sigma", "N1", "N2", "cN1", "cN2", "cr1", "cr2"}
  IN IF \E x \in names : Len(e[x]) # n THEN CK("d.sizes", FALSE) ELSE UNION {DeriveOne(e, k) : k \in 1..n}

(* ---- projections ---- *)
Law(fn, t) == IF fn = "area" THEN 2 \otimes RSin(t \oslash 2) ELSE RTan(t \oslash 2)
\* the radius of the sphere's rim
Rim(fn) == Law(fn, HalfPi)
PointFails(e, k) ==
  LET v == e.v[k]
      a0 == IF e.axis = << >> THEN << 0, 0, 1 >> ELSE UnitSix(e.axis)
      a == IF e.lower THEN a0 ELSE Neg(a0)                                     \* the pole in the middle of the projection
      c == Dot(a, v)
      s == Norm(Cross(a, v))
      t == RAtan2(s, c)
      shown == ~RIsNaN(e.X[k]) /\ ~RIsNaN(e.Y[k])
      rad == Norm(<< e.X[k], e.Y[k] >>)
      edge == RAbs(c) \preceq R("1e-12")
      far == (1 \oplus c) \prec R("1e-12")
      tol == R("1e-9") \oplus (R("1e-14") \oslash RMax2(1 \oplus c, R("1e-300")))
      back == R("1e-9") \oplus (R("1e-14") \oslash RMax2(1 \ominus c, R("1e-300")))
      dir == IF e.axis = << >> THEN << v[1] \oslash RMax2(s, R("1e-300")), v[2] \oslash RMax2(s, R("1e-300")) >> ELSE << 0, 0 >>
      at(r, sgn, x) == /\ Near(rad, r, 0, x) \/ Near(rad, r, R("1e-9"), 0)
                       /\ e.axis = << >> => (Near(e.X[k], (sgn \otimes r) \otimes dir[1], x \oplus (x \otimes r), 0) /\ Near(e.Y[k], (sgn \otimes r) \otimes dir[2], x \oplus (x \otimes r), 0))
      direct == shown /\ at(Law(e.fn, t), 1, tol)
      antipode == shown /\ at(Law(e.fn, RPi \ominus t), -1, back)
  IN IF e.full THEN CK("Full", far \/ direct)
     ELSE IF edge THEN CK("Edge", ~shown \/ direct \/ antipode)
     ELSE IF 0 \prec c THEN CK("Radius", direct)
     ELSE IF e.back THEN CK("Antipode", antipode)
     ELSE CK("Hidden", RIsNaN(e.X[k]) /\ RIsNaN(e.Y[k]))
\* with a projection axis: the azimuths about the axis are kept up to a rotation (not checked on points at the poles or sent to their antipodes)
Turn(e, k, m) ==
  LET a0 == UnitSix(e.axis)
      a == IF e.lower THEN a0 ELSE Neg(a0)
      v == e.v[k] w == e.v[m]
      cv == Dot(a, v) cw == Dot(a, w)
      sv == Norm(Cross(a, v)) sw == Norm(Cross(a, w))
      rv == Norm(<< e.X[k], e.Y[k] >>) rw == Norm(<< e.X[m], e.Y[m] >>)
      cosd == (Dot(v, w) \ominus (cv \otimes cw)) \oslash (sv \otimes sw)
      sind == Dot(a0, Cross(v, w)) \oslash (sv \otimes sw)
  IN (R("1e-3") \prec sv /\ R("1e-3") \prec sw /\ R("1e-6") \prec cv /\ R("1e-6") \prec cw) =>
       /\ Near(((e.X[k] \otimes e.X[m]) \oplus (e.Y[k] \otimes e.Y[m])) \oslash (rv \otimes rw), cosd, R("1e-8"), 0)
       /\ Near(((e.X[k] \otimes e.Y[m]) \ominus (e.Y[k] \otimes e.X[m])) \oslash (rv \otimes rw), sind, R("1e-8"), 0)
ProjFails(e) ==
  IF Len(e.X) # Len(e.v) \/ Len(e.Y) # Len(e.v) THEN CK("p.sizes", FALSE)
  ELSE UNION {PointFails(e, k) : k \in 1..Len(e.v)} \cup (IF e.axis = << >> THEN {} ELSE CK("Turn", \A k \in 1..(Len(e.v) - 1) : Turn(e, k, k + 1)))
Failing(e) ==
  IF e.err # "" THEN CK(e.op \o ".accepted", FALSE)
  ELSE CASE e.op = "make" -> CK("Made", EqList(e.got.mt, e.mt)) \cup CK("MadeProbabilities", EqSeq(e.got.prob, e.prob)) \cup CK("MadeSizes", Sized(e.got))
         [] e.op = "select" -> SelectFails(e)
         [] e.op = "put" -> PutFails(e)
         [] e.op = "unique" -> UniqueFails(e)
         [] e.op = "max" -> MaxFails(e)
         [] e.op = "mean" -> MeanFails(e)
         [] e.op = "derive" -> DeriveFails(e)
         [] OTHER -> ProjFails(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
