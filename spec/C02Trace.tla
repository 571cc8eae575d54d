------------------------------ MODULE C02Trace ------------------------------
(* Trace validation of C02: every returned log-likelihood against Likelihood.tla *)
EXTENDS TraceSpec, Likelihood
VARIABLE i

\* the probability a log value stands for; the code evaluates 1+erf in doubles, so a single-station probability is
\* only determined up to a few units in the last place of 1
PTol == R("4e-16")
\* expected ln of a product over stations together with the absolute slack each factor admits
Factors(e, k, m) ==
  [j \in 1..Len(e.a) |->
     LET x == RDot(e.a[j][k], [c \in 1..6 |-> e.mt[c][m]])
         w == IF Len(e.w) = 1 THEN e.w[1] ELSE e.w[j]
     IN IF e.kind = "pol" THEN PolarityP(x, e.sigma[j], w) ELSE PolarityProbP(x, e.pp[j], e.pn[j], w)]
\* lnp lies between the logs of the products of the factors' bounds
LowF(fs) == RProd([j \in 1..Len(fs) |-> RMax2(0, (fs[j] \ominus PTol) \otimes (1 \ominus R("1e-13")))])
HighF(fs) == RProd([j \in 1..Len(fs) |-> (fs[j] \oplus PTol) \otimes (1 \oplus R("1e-13"))])
ValueOK(e, k, m, v) ==
  LET fs == Factors(e, k, m)
  IN /\ ~RIsNaN(v)
     /\ RExp(v) \preceq (HighF(fs) \otimes (1 \oplus R("1e-12")))
     /\ (LowF(fs) \otimes (1 \ominus R("1e-12"))) \preceq RExp(v)
     /\ ((\E j \in 1..Len(fs) : REq(fs[j], 0) /\ e.exact)) => REq(v, RNegInf)
\* when no factor sits in the saturated tail the logs agree to rounding
LnOK(e, k, m, v) ==
  LET fs == Factors(e, k, m)
  IN (\A j \in 1..Len(fs) : R("1e-6") \prec fs[j]) => Near(v, RSum([j \in 1..Len(fs) |-> RLn(fs[j])]), R("1e-9"), R("1e-9"))
Cells(e) == {<<k, m>> : k \in 1..Len(e.a[1]), m \in 1..Len(e.mt[1])}
ShapeOK(e, lp) == Len(lp) = Len(e.a[1]) /\ \A k \in 1..Len(lp) : Len(lp[k]) = Len(e.mt[1])

Failing(e) ==
  IF e.err # "" THEN CK(e.kind \o ".accepted", FALSE)
  ELSE CK(e.kind \o ".shape", ShapeOK(e, e.lnp))
  \cup CK(e.kind \o ".value", \A c \in Cells(e) : ValueOK(e, c[1], c[2], e.lnp[c[1]][c[2]]))
  \cup CK(e.kind \o ".ln", \A c \in Cells(e) : LnOK(e, c[1], c[2], e.lnp[c[1]][c[2]]))
  \cup CK(e.kind \o ".range", \A c \in Cells(e) : e.lnp[c[1]][c[2]] \preceq R("1e-15"))
  \* the opposite observation
  \cup (IF Has(e, "opp")
        THEN CK(e.kind \o ".complement", \A c \in Cells(e) :
                   Near(RExp(e.lnp[c[1]][c[2]]) \oplus RExp(e.opp[c[1]][c[2]]), e.total, R("1e-14"), R("1e-14")))
        ELSE {})
  \* amplitudes of a "mono" event increase along the tensor axis
  \cup (IF Has(e, "mono")
        THEN CK(e.kind \o ".monotone", \A m \in 2..Len(e.mt[1]) :
                   RExp(e.lnp[1][m-1]) \preceq (RExp(e.lnp[1][m]) \oplus PTol))
        ELSE {})

Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
Post == Finish(Len(Trace))
TInit == Init
TNext == Next
TPost == Post
=============================================================================
