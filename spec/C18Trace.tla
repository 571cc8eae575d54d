------------------------------ MODULE C18Trace ------------------------------
(***************************************************************************)
(* What MTfit reads from a scatter file is what Scatter.tla reads from the  *)
(* same lines; what it writes reads the same; what it bins satisfies the    *)
(* invariants of ScatterBin.tla which can be judged from the answer.        *)
(* e.lines: words of the file; e.got: records [w, name, az, toa]            *)
(***************************************************************************)
EXTENDS TraceSpec, Integers, Sequences, FiniteSets
VARIABLE i
S == INSTANCE Scatter WITH Reader <- "right"
Rec(b) == [w |-> R(b.w), name |-> TLCEval([k \in 1..Len(b.sta) |-> b.sta[k][1]]), az |-> TLCEval([k \in 1..Len(b.sta) |-> R(b.sta[k][2])]), toa |-> TLCEval([k \in 1..Len(b.sta) |-> R(b.sta[k][3])])]
Recs(lines) == LET p == TLCEval(S!ScatParse(lines)) IN TLCEval([b \in 1..Len(p) |-> TLCEval(Rec(p[b]))])
SameNums(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : REq(x[k], y[k])
SameAngles(a, b) == a.name = b.name /\ SameNums(a.az, b.az) /\ SameNums(a.toa, b.toa)
SameRecs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameAngles(a[k], b[k])
SameWeights(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : REq(a[k].w, b[k].w)
Names(a) == {a.name[k] : k \in 1..Len(a.name)}
Diff(x, y) == RAbs(x \ominus y)
\* are all the station angles of two records nearer than d?
Within1(a, b, d) ==
  IF a.name = b.name THEN \A k \in 1..Len(a.name) : Diff(a.az[k], b.az[k]) \prec d /\ Diff(a.toa[k], b.toa[k]) \prec d
  ELSE Names(a) = Names(b) /\ \A k \in 1..Len(a.name) : \E m \in 1..Len(b.name) : b.name[m] = a.name[k] /\ Diff(a.az[k], b.az[m]) \prec d /\ Diff(a.toa[k], b.toa[m]) \prec d
Total(r) == RSum([k \in 1..Len(r) |-> r[k].w])
BinClauses(in, got, bin, exact) ==
  LET half == bin \oslash 2
      tol == IF exact THEN 0 ELSE R("1e-9")
      hi == half \oplus tol   lo == half \ominus tol
      \* the retained records an input may belong to, and whether it belongs to one for sure
      cand == TLCEval([m \in 1..Len(in) |-> {k \in 1..Len(got) : Within1(got[k], in[m], hi)}])
      \* an input which is itself retained, merged with none
      sure(k) == [m \in 1..Len(in) |-> IF cand[m] = {k} THEN in[m].w ELSE 0]
      most(k) == [m \in 1..Len(in) |-> IF k \in cand[m] THEN in[m].w ELSE 0]
  IN CK("BinOriginals", \A k \in 1..Len(got) : \E m \in 1..Len(in) : SameAngles(got[k], in[m]))
     \cup CK("BinOnlyNear", \A m \in 1..Len(in) : cand[m] # {})
     \cup CK("BinOnePerBin", \A a, b \in 1..Len(got) : a < b => ~Within1(got[a], got[b], lo))
     \cup CK("BinMass", Near(Total(got), Total(in), 0, R("1e-12")))
     \cup CK("BinWeights", \A k \in 1..Len(got) : /\ (RSum(sure(k)) \otimes R("0.999999999999")) \preceq got[k].w
                                                 /\ got[k].w \preceq (RSum(most(k)) \otimes R("1.000000000001")))
Binned(in, got, bin, exact) ==
  IF REq(bin, 0) THEN CK("NoBin", SameRecs(in, got)) \cup CK("NoBinWeights", SameWeights(in, got))
  ELSE BinClauses(in, got, bin, exact)
Unaccepted(e) == CK("Accepted", e.err = "")
ReadFails(e) == LET want == Recs(e.lines) IN CK("WellFormed", S!WellFormed(e.lines)) \cup CK("Records", SameRecs(want, e.got)) \cup CK("Weights", SameWeights(want, e.got))
RoundFails(e) ==
  LET want == Recs(e.lines)  w == Recs(e.written)
  IN CK("WrittenForm", S!WellFormed(e.written)) \cup CK("Written", SameRecs(want, w)) \cup CK("WrittenWeights", SameWeights(want, w))
     \cup CK("RoundTrip", SameRecs(want, e.got)) \cup CK("RoundTripWeights", SameWeights(want, e.got))
\* a sample of k of the n records, each at most once (the records of the file all differ in their weights)
SubFails(e) ==
  LET in == Recs(e.lines)  got == e.got
      all == e.k = 0 \/ e.k >= Len(in)
      min == IF all THEN Len(in) ELSE e.k
  IN IF all THEN Binned(in, got, e.bin, FALSE)
     ELSE IF REq(e.bin, 0)
          THEN CK("SubCount", Len(got) = min)
               \cup CK("SubOriginals", \A k \in 1..Len(got) : \E m \in 1..Len(in) : SameAngles(got[k], in[m]) /\ REq(got[k].w, in[m].w))
               \cup CK("SubDistinct", \A a, b \in 1..Len(got) : a # b => ~REq(got[a].w, got[b].w))
          ELSE CK("SubBinCount", Len(got) <= min /\ 0 < Len(got))
               \cup CK("SubBinOriginals", \A k \in 1..Len(got) : \E m \in 1..Len(in) : SameAngles(got[k], in[m]) /\ in[m].w \preceq (got[k].w \otimes R("1.000000000001")))
               \cup CK("SubBinMass", Total(got) \preceq (Total(in) \otimes R("1.000000000001")))
               \cup CK("SubBinOnePerBin", \A a, b \in 1..Len(got) : a < b => ~Within1(got[a], got[b], (e.bin \oslash 2) \ominus R("1e-9")))
FilesFails(e) ==
  CK("FilesCount", Len(e.names) = Len(e.expected) /\ Len(e.files) = Len(e.expected))
  \cup CK("FilesNames", \A k \in 1..Len(e.expected) : e.names[k] = e.expected[k])
  \cup UNION {Binned(Recs(e.files[k].lines), Recs(e.files[k].written), e.bin, FALSE) : k \in 1..Len(e.files)}
Failing(e) ==
  IF e.err # "" THEN Unaccepted(e)
  ELSE Unaccepted(e) \cup
       (CASE e.op = "read" -> ReadFails(e)
          [] e.op = "round" -> RoundFails(e)
          [] e.op = "bin" -> Binned(Recs(e.lines), e.got, e.bin, e.exact)
          [] e.op = "sub" -> SubFails(e)
          [] OTHER -> FilesFails(e))
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
