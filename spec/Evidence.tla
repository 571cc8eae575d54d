------------------------------ MODULE Evidence ------------------------------
(***************************************************************************)
(* Evidence, model probabilities and divergences of a sampled posterior.    *)
(* x is the sequence of log-likelihoods of the kept samples, n the number   *)
(* of tried samples (those not in x had zero likelihood).                   *)
(***************************************************************************)
EXTENDS LogDomain
LnEvidence(x, n) == LnSumExp(x) \ominus RLn(n)
LnEvidenceWithPrior(x, p, n) == LnSumExp([k \in 1..Len(x) |-> x[k] \oplus RLn(p[k])]) \ominus RLn(n)
\* log of the normalised sample weights
LnW(x) == LET t == LnSumExp(x) IN [k \in 1..Len(x) |-> x[k] \ominus t]
\* w ln w, with 0 ln 0 = 0
XLnX(lw) == IF REq(RExp(lw), 0) THEN 0 ELSE RExp(lw) \otimes lw
Entropy(x) == LET lw == LnW(x) IN RNeg(RSum([k \in 1..Len(x) |-> XLnX(lw[k])]))
DklUniform(x, n) == RLn(n) \ominus Entropy(x)
\* every sample of p-mass above m also has q-mass (otherwise the divergence is infinite)
Dominated(x, y, m) == LET p == LnW(x) IN \A k \in 1..Len(x) : RExp(p[k]) \preceq m \/ ~REq(y[k], RNegInf)
Dkl(x, y) == LET p == LnW(x) q == LnW(y)
             IN RSum([k \in 1..Len(x) |-> IF REq(RExp(p[k]), 0) THEN 0 ELSE RExp(p[k]) \otimes (p[k] \ominus q[k])])
\* restricted to the support of q
DklOn(x, y) == LET p == LnW(x) q == LnW(y)
               IN RSum([k \in 1..Len(x) |-> IF REq(RExp(p[k]), 0) \/ REq(y[k], RNegInf) THEN 0 ELSE RExp(p[k]) \otimes (p[k] \ominus q[k])])
ModelProbs(b) == LET t == LnSumExp(b) IN [k \in 1..Len(b) |-> RExp(b[k] \ominus t)]
=============================================================================
