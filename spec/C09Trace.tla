------------------------------ MODULE C09Trace ------------------------------
(* Trace validation of C09: whole histories of appended batches, and the outputs of the store after some of them *)
EXTENDS TraceSpec, Store, FiniteSets
VARIABLE i
Clip(s, k) == SubSeq(s, 1, k)
\* one output o of the store, taken after o.after batches
Output(e, o) ==
  LET bs == Clip(e.batches, o.after)
      cols == Stored(bs)
      ln == Ln(bs)
      sf == Sf(bs)
      n == Len(cols)
      m == MaxAbs(ln)
      tol == Tol(m)
      total == LnSumExp(ln)
      lmax == RMaxSeq(ln)
      floor == Floor(lmax, e.discard, Tried(bs))
      cut == e.discard > 0 /\ Tried(bs) > 0
      must == SelectSeq([k \in 1..n |-> k], LAMBDA k : ~cut \/ (floor \oplus tol) \prec ln[k])
      may == SelectSeq([k \in 1..n |-> k], LAMBDA k : ~cut \/ (floor \ominus tol) \preceq ln[k])
      got == o.cols
  IN IF n = 0
     THEN CK("out.empty", o.error = "" /\ o.prob = << >> /\ o.cols = << >>)
     ELSE CK("out.accepted", o.error = "")
          \* every candidate has its own identity, so the positions kept can be read off the output
          \cup CK("out.known", \A j \in 1..Len(got) : got[j] # 0)
          \cup CK("out.kept", {got[j] : j \in 1..Len(got)} \subseteq {cols[may[j]] : j \in 1..Len(may)}
                              /\ {cols[must[j]] : j \in 1..Len(must)} \subseteq {got[j] : j \in 1..Len(got)})
          \cup CK("out.once", Len(got) = Cardinality({got[j] : j \in 1..Len(got)}))
          \cup (LET at == [j \in 1..Len(got) |-> CHOOSE k \in 1..n : cols[k] = got[j]]
                IN CK("out.order", \A j \in 1..(Len(got) - 1) : at[j] < at[j + 1])
                   \cup CK("out.paired", Len(o.lnp) = Len(got) /\ \A j \in 1..Len(got) : SameLn(o.lnp[j], ln[at[j]], tol))
                   \cup CK("out.probability", Len(o.prob) = Len(got) /\ \A j \in 1..Len(got) :
                               LET v == OutLn(ln[at[j]], total, e.normalise)
                               IN \/ Near(o.prob[j], RExp(v), R("1e-300"), R("1e-9") \oplus tol))
                   \cup (IF e.scaled THEN CK("out.scale", Len(o.sf) = Len(got) /\ \A j \in 1..Len(got) : o.sf[j] = sf[at[j]]) ELSE {}))
          \cup (IF e.normalise THEN CK("out.unit", LET t == RSum(o.prob) IN t \preceq R("1.000000001") /\ (cut \/ R("0.999999999") \preceq t)) ELSE {})
History(e) ==
  CK("hist.accepted", e.error = "")
  \cup CK("hist.tried", Len(e.lens) = Len(e.batches) /\ \A k \in 1..Len(e.lens) : e.lens[k] = Tried(Clip(e.batches, k)))
  \cup CK("hist.outputs", Len(e.outs) > 0)
  \cup UNION {Output(e, e.outs[k]) : k \in 1..Len(e.outs)}
\* sample-count limited sampling: ends[k] is the end flag after batch k, ns[k] the number tried in it
Limited(e) ==
  CK("limit.accepted", e.error = "")
  \cup CK("limit.progress", Len(e.ns) > 0 /\ \A k \in 1..Len(e.ns) : e.ns[k] > 0)
  \cup CK("limit.stops", \A k \in 1..Len(e.ns) : e.ends[k] = (Total(Clip(e.ns, k)) >= e.max))
  \cup CK("limit.count", e.total = Total(e.ns))
  \cup CK("limit.stored", e.stored = e.expected)
Failing(e) == CASE e.op = "hist" -> History(e) [] e.op = "limit" -> Limited(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
