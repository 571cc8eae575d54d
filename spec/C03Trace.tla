------------------------------ MODULE C03Trace ------------------------------
(* Trace validation of C03: amplitude-ratio likelihoods against the defining integral *)
EXTENDS TraceSpec, Quad
VARIABLE i
\* the closed form subtracts exponents of size 1/f^2, so its relative rounding error grows like eps/f^2
RTol(fx, fy) == R("1e-9") \oplus (R("2e-14") \oslash RSq(RMin2(fx, fy)))
LnOK(v, d, tol) ==
  /\ ~RIsNaN(v) /\ ~REq(v, RInf)
  /\ IF R("1e-280") \prec d THEN Near(v, RLn(d), tol, R("1e-12")) ELSE v \preceq R("-640")
Point(e) == LET d == RatioFrac(e.r, e.x, e.y, e.fx, e.fy)
            IN CK("point.finite", ~RIsNaN(e.lnp[1]) /\ ~REq(e.lnp[1], RInf))
               \cup CK("point.density", LnOK(e.lnp[1], d, RTol(e.fx, e.fy)))
               \* the four sign combinations of the modelled amplitudes
               \cup CK("point.magnitudes-only", \A k \in 2..4 : Near(e.lnp[k], e.lnp[1], RTol(e.fx, e.fy), R("1e-12")))
               \* the same density through the public ratio density function (sum over +r and -r)
               \cup CK("point.ratio_pdf", e.pdf \succeq 0 /\ LnOK(RLn(e.pdf), d, RTol(e.fx, e.fy)))
Norm(e) == LET rho == R(e.mx) \oslash R(e.my)  w == RWeights(rho, R(e.fx), R(e.fy))  q == RNodes(rho, R(e.fx), R(e.fy))
           IN CK("norm.nonnegative", \A k \in 1..Len(e.f) : 0 \preceq e.f[k])
              \cup CK("norm.unit", /\ Len(e.f) = Len(w) /\ NearSeq(e.r, q, 0, R("1e-14"))
                                   /\ Near(RSum([k \in 1..Len(w) |-> w[k] \otimes e.f[k]]), 1, R("1e-6") \oplus (R("2e-14") \oslash RSq(RMin2(R(e.fx), R(e.fy)))), 0))
Shape(e) == CK("shape.accepted", e.err = "")
  \cup CK("shape.shape", Len(e.lnp) = Len(e.ax[1]) /\ \A k \in 1..Len(e.lnp) : Len(e.lnp[k]) = Len(e.mt[1]))
  \cup CK("shape.sum-over-stations", \A k \in 1..Len(e.lnp), m \in 1..Len(e.mt[1]) :
        LET mm == [c \in 1..6 |-> e.mt[c][m]]
            d == [j \in 1..Len(e.ax) |-> RatioFrac(e.r[j], RDot(e.ax[j][k], mm), RDot(e.ay[j][k], mm), e.px[j], e.py[j])]
        IN IF \A j \in 1..Len(d) : R("1e-280") \prec d[j]
           THEN Near(e.lnp[k][m], RSum([j \in 1..Len(d) |-> RLn(d[j])]),
                     RSum([j \in 1..Len(d) |-> RTol(e.px[j], e.py[j])]), R("1e-12"))
           ELSE ~RIsNaN(e.lnp[k][m]))
Edge(e) == CK("edge.no-nan", e.err = "" /\ ~RIsNaN(e.lnp[1]) /\ ~REq(e.lnp[1], RInf))
Failing(e) == CASE e.op = "point" -> (IF e.err = "" THEN Point(e) ELSE CK("point.accepted", FALSE))
                [] e.op = "norm" -> Norm(e)
                [] e.op = "shape" -> Shape(e)
                [] e.op = "edge" -> Edge(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
