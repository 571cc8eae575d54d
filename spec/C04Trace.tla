------------------------------ MODULE C04Trace ------------------------------
(* Trace validation of C04 *)
EXTENDS TraceSpec, LogDomain
VARIABLE i
Seq1(s, ref, c, tol) == Len(s) = Len(ref) /\ \A k \in 1..Len(s) : SameLn(s[k], ref[k] \oplus c, tol)
Summed(e) == IF e.axis = 0 THEN Len(e.x) ELSE Cols(e.x)
Marg(e) ==
  LET tol == Tol(MaxAbs(Flat(e.x)))  m == Marginal(e.x, e.axis)  lnv == RLn(e.vol)
  IN CK("marg.accepted", e.err = "")
     \cup CK("marg.input-unchanged", e.unchanged)
     \cup CK("marg.finite", \A k \in 1..Len(e.y) : ~RIsNaN(e.y[k]) /\ ~REq(e.y[k], RInf))
     \* exact log of the sum of exponentials (times the volume element); a single value is returned as it stands
     \cup CK("marg.value",
        IF e.dim = 1 THEN \* a 1-D log-PDF counts as already marginalised over its first axis
             NearSeq(e.y, Flat(e.x), 0, 0) \/ Seq1(e.y, << LnSumExp(Flat(e.x)) >>, lnv, tol)
        ELSE IF Summed(e) = 1 THEN Seq1(e.y, m, 0, tol) \/ Seq1(e.y, m, lnv, tol)
        ELSE Seq1(e.y, m, lnv, tol))
     \* commutes with adding a constant
     \cup CK("marg.shift", Seq1(e.ys, e.y, e.c, Tol(MaxAbs(Flat(e.x)) \oplus RAbs(e.c))))
Norm(e) ==
  LET f == Flat(e.x)  g == e.y
      ref == Flat(Normalised(IF e.box = "output" THEN << Marginal(e.x, 0) >> ELSE e.x, e.vol))
      tol == Tol(MaxAbs(f))
      total == RSum([k \in 1..Len(g) |-> RExp(g[k])]) \otimes e.vol
  IN CK("norm.accepted", e.err = "")
     \cup CK("norm.input-unchanged", e.unchanged)
     \cup CK("norm.finite", \A k \in 1..Len(g) : ~RIsNaN(g[k]) /\ ~REq(g[k], RInf))
     \cup CK("norm.value", Seq1(g, ref, 0, tol))
     \cup CK("norm.unit-sum", (\A k \in 1..Len(f) : REq(f[k], RNegInf)) \/ Near(total, 1, R("1e-9"), 0))
     \cup CK("norm.shift-invariant", Seq1(e.ys, g, 0, Tol(MaxAbs(f) \oplus RAbs(e.c))))
Failing(e) == IF e.op = "marg" THEN Marg(e) ELSE Norm(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
