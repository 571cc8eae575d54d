-------------------------------- MODULE Quad --------------------------------
(***************************************************************************)
(* Quadrature nodes and weights (in r) for integrating a ratio density over *)
(* (0, inf): composite Gauss-Legendre in u = ln(r/rho).                     *)
(***************************************************************************)
EXTENDS Likelihood
Panels(lo, hi, n) == [k \in 1..n |-> << lo \oplus (((hi \ominus lo) \otimes (k-1)) \oslash n),
                                       lo \oplus (((hi \ominus lo) \otimes k) \oslash n) >>]
UPanels(fx, fy) ==
  LET w == RSqrt(RSq(fx) \oplus RSq(fy))
  IN IF w \prec R("0.06") THEN Panels(R("-14") \otimes w, R("14") \otimes w, 28)
     ELSE Panels(R("-34"), R("-3"), 31) \o Panels(R("-3"), 3, IF w \prec R("0.5") THEN 120 ELSE 24) \o Panels(3, 34, 31)
UNodes(ps) == [k \in 1..8*Len(ps) |->
                 LET p == ps[((k-1) \div 8) + 1]  h == (p[2] \ominus p[1]) \oslash 2
                 IN << p[1] \oplus (h \otimes (1 \oplus GLx[((k-1) % 8) + 1])), h \otimes GLw[((k-1) % 8) + 1] >>]
RNodes(rho, fx, fy) == LET un == UNodes(UPanels(fx, fy)) IN [k \in 1..Len(un) |-> rho \otimes RExp(un[k][1])]
RWeights(rho, fx, fy) == LET un == UNodes(UPanels(fx, fy)) IN [k \in 1..Len(un) |-> un[k][2] \otimes (rho \otimes RExp(un[k][1]))]
=============================================================================
