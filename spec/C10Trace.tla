------------------------------ MODULE C10Trace ------------------------------
(* Trace validation of C10 *)
EXTENDS TraceSpec, Evidence
VARIABLE i
T(x) == R("1e-10") \oplus (R("1e-14") \otimes MaxAbs(x))
Evid(e) ==
  LET tol == T(e.x) \oplus (R("1e-15") \otimes RAbs(e.c))
      ref == LnEvidenceWithPrior(e.x, e.p, e.N)
  IN CK("evid.accepted", e.err = "")
     \cup CK("evid.value", SameLn(e.y, ref, tol))
     \cup CK("evid.shift", SameLn(e.ys, e.y \oplus e.c, tol))
     \cup CK("evid.order", SameLn(e.yp, e.y, tol))
Store(e) ==
  LET tol == T(e.x)  ref == LnEvidence(e.x, e.N)
  IN CK("store.accepted", e.err = "")
     \cup CK("store.evidence", Near(e.y, ref, tol \oplus (IF e.discard = 0 THEN 0 ELSE R("1.01") \oslash e.discard), 0))
     \cup CK("store.dkl", Near(e.dkl, DklUniform(e.x, e.N), tol, 0))
     \cup CK("store.dkl-range", RNeg(tol) \preceq e.dkl /\ e.dkl \preceq (RLn(e.N) \oplus tol))
Model(e) ==
  LET ref == ModelProbs(e.x) n == Len(e.x)
  IN CK("model.accepted", e.err = "")
     \cup CK("model.value", NearSeq(e.y, ref, R("1e-300"), R("1e-12")))
     \cup CK("model.positive", \A k \in 1..n : 0 \prec e.y[k] \/ (REq(e.y[k], 0) /\ ref[k] \prec R("1e-307")))
     \cup CK("model.unit", Near(RSum(e.y), 1, R("1e-12"), 0))
     \cup CK("model.ratio", \A j, k \in 1..n : (R("1e-300") \prec e.y[j] /\ R("1e-300") \prec e.y[k]) =>
                 Near(RLn(e.y[j]) \ominus RLn(e.y[k]), e.x[j] \ominus e.x[k], R("1e-10"), 0))
     \cup CK("model.shift", NearSeq(e.ys, e.y, R("1e-300"), R("1e-9")))
DklE(e) ==
  LET tol == T(e.x)
  IN CK("dkle.accepted", e.err = "")
     \cup CK("dkle.value", Near(e.y, DklUniform(e.x, e.N), tol, 0))
     \cup CK("dkle.range", RNeg(tol) \preceq e.y /\ e.y \preceq (RLn(e.N) \oplus tol))
     \cup CK("dkle.unchanged", e.unchanged)
Dk(e) ==
  \* the weights carry the rounding of log values of size M, and multiply log ratios of size M
  LET m == MaxAbs(e.x) \oplus MaxAbs(e.q)
      tol == T(e.x) \oplus T(e.q) \oplus (R("1e-15") \otimes RSq(m))
  IN CK("dkl.accepted", e.err = "")
     \cup CK("dkl.nonnegative", RNeg(tol) \preceq e.y)
     \cup CK("dkl.value", \/ Near(e.y, Dkl(e.x, e.q), tol, 0)
                         \* an undominated mass at the edge of underflow may be dropped, any other makes it infinite
                         \/ (~Dominated(e.x, e.q, R("1e-290")) /\ REq(e.y, RInf))
                         \/ (Dominated(e.x, e.q, R("1e-290")) /\ (REq(e.y, RInf) \/ Near(e.y, DklOn(e.x, e.q), tol, 0))))
     \cup CK("dkl.identical", Near(e.same, 0, tol, 0))
     \cup CK("dkl.unchanged", e.unchanged)
Failing(e) == CASE e.op = "evid" -> Evid(e) [] e.op = "store" -> Store(e) [] e.op = "model" -> Model(e)
                [] e.op = "dkle" -> DklE(e) [] e.op = "dkl" -> Dk(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
