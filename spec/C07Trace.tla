------------------------------ MODULE C07Trace ------------------------------
(* Recorded Markov-chain runs against Chain.tla (what a run returns for its history of outcomes), Posterior.tla (the
   likelihood of every entry) and prior random sampling (what the entries are a sample of) *)
EXTENDS TraceSpec, Chain, Posterior, SourcePrior, Integers, FiniteSets
VARIABLE i
\* a scripted history: the identities of the proposals of each batch, and the first accepted of them
RECURSIVE Fold(_, _, _, _)
Fold(c, steps, L, M) == IF steps = << >> THEN c ELSE Fold(Batch(c, Head(steps).ids, Head(steps).k, L, M), Tail(steps), L, M)
Last(e) == Fold(Start(0), e.steps, e.scen.L, e.scen.M)
Ratio(a, b) == IF b = 0 THEN 0 ELSE a \oslash b
\* states of zero likelihood (nothing possible was found yet) are left out of what is stored
Kept(e, r) == SelectSeq(r, LAMBDA id : ~REq(e.lnl[id + 1], RNegInf))
Share(dc, r) == Cardinality({k \in 1..Len(r) : dc[r[k] + 1] = TRUE})
Transd(s) == s.api \in {"transd", "mtrytransd"}
Hist(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {}
   ELSE LET c == Last(e)  all == Record(c)  r == Kept(e, all)
            before == Fold(Start(0), SubSeq(e.steps, 1, Len(e.steps) - 1), e.scen.L, e.scen.M) IN
        CK("EndsAtChainLength", e.ended = Complete(c, e.scen.M) /\ ~Complete(before, e.scen.M))
        \cup CK("EntryCount", Len(e.entries) = Len(r))
        \cup CK("Entries", Len(e.entries) = Len(r) /\ \A k \in 1..Len(r) : \E q \in 1..Len(e.entries[k]) : e.entries[k][q] = r[k])
        \* nothing was tried yet: no counts to report
        \cup CK("Tried", all = << >> \/ e.total = Tried(c))
        \cup CK("AcceptedCount", all = << >> \/ e.accepted = c.accepted)
        \cup CK("Rate", all = << >> \/ Near(e.rate, Ratio(c.accepted, Tried(c)), R("1e-12"), 0))
        \cup CK("Share", (r # << >> /\ Transd(e.scen)) =>
                  /\ Len(e.pdc) = Len(e.dcs)
                  /\ \A v \in 1..Len(e.dcs) : Near(e.pdc[v], Share(e.dcs[v], r) \oslash Len(r), R("1e-12"), 0))
        \cup CK("Constrained", (e.scen.dc = TRUE /\ ~Transd(e.scen)) => \A v \in 1..Len(e.dcs) : \A k \in 1..Len(e.dcs[v]) : e.dcs[v][k] = TRUE))

\* a run to the end on data
Expected(e, m) == [v \in 1..Len(e.obs) |-> PosteriorRows(e.obs[v], e.w[v], TRUE, m[v])[1]]
RECURSIVE SumB(_, _)
SumB(b, k) == IF k = 0 THEN << 0, 0 >> ELSE << SumB(b, k - 1)[1] \oplus b[k][1], SumB(b, k - 1)[2] \oplus b[k][2] >>
RunDone(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {}
   ELSE CK("EndsAtChainLength", e.total = e.M)
        \cup CK("EntryCount", e.entries = e.M + 1 /\ \A v \in 1..Len(e.lens) : e.lens[v] = e.entries)
        \cup CK("FirstHeld", e.held = TRUE)
        \cup CK("AcceptedCount", (e.accepted - e.changes) \in 0..1 /\ e.accepted <= e.total)
        \cup CK("Rate", Near(e.rate, Ratio(e.accepted, e.total), R("1e-12"), 0))
        \cup CK("Unit", e.maxnorm \preceq R("1e-11"))
        \cup CK("Probability", e.probdev \preceq R("1e-9"))
        \cup CK("Constrained", e.constrained = TRUE => \A v \in 1..Len(e.dcs) : e.dcs[v] = e.entries)
        \cup CK("Share", e.pdc # << >> => (Len(e.pdc) = Len(e.dcs) /\ \A v \in 1..Len(e.dcs) : Near(e.pdc[v], e.dcs[v] \oslash e.entries, R("1e-12"), 0)))
        \cup CK("LikelihoodOfSource", e.lndev \preceq R("1e-9"))
        \cup CK("Likelihood", \A k \in 1..Len(e.some) : Within(e.some[k].ln, SumB(Expected(e, e.some[k].m), Len(e.obs)))))
Run(e) == RunDone(e) \cup CK("ShareReported", (e.error = "" /\ Transd(e.scen)) => e.pdc # << >>)
Front(e) == RunDone(e) \cup CK("ShareReported", (e.error = "" /\ e.scen.algorithm = "transdmcmc") => e.pdc # << >>)

\* expectations: n sigma of both sides
Sigmas(e) == IF EnvVar("VP_VARIANT") = "c" /\ e.scen.api \in {"mtry", "mtrytransd"} THEN 6 ELSE 8
Close(a, b, sa, sb, n, x) == RAbs(a \ominus b) \preceq ((n \otimes RSqrt(RSq(sa) \oplus RSq(sb))) \oplus x)
\* share of the double-couples for a full-tensor prior of mass c
ShareFor(p, c) == p.zd \oslash (p.zd \oplus (c \otimes p.zm))
PostEv(e) ==
  CK("RaisedNothing", e.error = "") \cup
  (IF e.error # "" THEN {}
   ELSE CK("ReferenceUsable", 150 \preceq e.ess)
        \cup CK("Posterior", \A k \in 1..Len(e.funcs) : Close(e.funcs[k].chain, e.funcs[k].prior, e.funcs[k].sec, e.funcs[k].sep, Sigmas(e), R("0.012")))
        \cup CK("ShareReported", \A k \in 1..Len(e.pdc) : Near(e.pdc[k].got, e.pdc[k].all, R("1e-12"), 0))
        \* the full-tensor prior has mass 1.10452 (known finding of C05)
        \cup CK("ModelShare", \A k \in 1..Len(e.pdc) : LET p == e.pdc[k]
                   rel == RSqrt(RSq(p.szm \oslash p.zm) \oplus RSq(p.szd \oslash p.zd))
                   sh == ShareFor(p, 1)
                   lo == ShareFor(p, R("1.105"))
                   tol == (Sigmas(e) \otimes RSqrt(RSq(p.sec) \oplus RSq((rel \otimes sh) \otimes (1 \ominus sh)))) \oplus R("0.012")
               IN (lo \ominus tol) \preceq p.share /\ p.share \preceq (sh \oplus tol)))
Failing(e) == CASE e.op = "hist" -> Hist(e) [] e.op = "run" -> Run(e) [] e.op = "front" -> Front(e) [] e.op = "post" -> PostEv(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
