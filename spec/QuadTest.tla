------------------------------ MODULE QuadTest ------------------------------
(***************************************************************************)
(* Lemmas about the specification itself: the density obtained by completing*)
(* the square is the defining integral, it integrates to one over r, and it *)
(* satisfies the inversion symmetry f_{X/Y}(r) = f_{Y/X}(1/r)/r^2.          *)
(***************************************************************************)
EXTENDS Quad, TraceIO, TLC
VARIABLE n
Fr == {"0.2", "1", "4"}
Ms == {"0.3", "1", "5"}
Rs == {"0.1", "0.7", "2", "6"}
Tests ==
     \* restricted to where the literal quadrature over +-12 sigma of Y resolves both Gaussians
     CK("defining-integral", \A fx \in {"1", "4"}, fy \in {"0.2", "1"}, m \in Ms, r \in {"0.1", "0.7", "2"} :
            LET x == RatioFrac(R(r), R(m), 1, R(fx), R(fy))  d == RatioDirect(R(r), R(m), 1, R(fx) \otimes R(m), R(fy))
            IN R("1e-20") \prec d => Near(x, d, R("1e-13"), R("1e-8")))
\cup CK("closed-form", \A fx, fy \in Fr, m \in Ms, r \in Rs : \A s \in {"1", "-1"} :
            LET x == RatioFrac(R(s) \otimes R(r), R(m), 1, R(fx), R(fy)) IN Near(RatioFracClosed(R(s) \otimes R(r), R(m), 1, R(fx), R(fy)), x, R("1e-280"), R("1e-9")))
\cup CK("normalised", \A fx, fy \in {"1", "4", "1e-3"} :
            LET q == RNodes(R("0.5"), R(fx), R(fy))  w == RWeights(R("0.5"), R(fx), R(fy))
            IN Near(RSum([k \in 1..Len(q) |-> w[k] \otimes RatioFrac(q[k], 1, 2, R(fx), R(fy))]), 1, R("1e-8"), 0))
\cup CK("inversion", \A fx, fy \in Fr, m \in Ms, r \in Rs :
            LET x == RatioFrac(R(r), R(m), 1, R(fx), R(fy))  y == RatioFrac(1 \oslash R(r), 1, R(m), R(fy), R(fx)) \oslash RSq(R(r))
            IN Near(x, y, R("1e-280"), R("1e-9")))
\cup CK("sign-free", \A fx, fy \in Fr, r \in Rs : REq(RatioFrac(R(r), -2, 3, R(fx), R(fy)), RatioFrac(R(r), 2, -3, R(fx), R(fy))))
Init == n = 0
Next == n = 0 /\ n' = 1 /\ PrintT(<<"SELFTEST", Tests>>)
=============================================================================
