------------------------------ MODULE C17Trace ------------------------------
(***************************************************************************)
(* A file given to a parser is read as Csv.tla / Hyp.tla say, and a result  *)
(* written to the binary format comes back as it was written (Record.tla).  *)
(***************************************************************************)
EXTENDS TraceSpec, Integers, Sequences, FiniteSets
VARIABLE i
C == INSTANCE Csv WITH Reader <- "right"
H == INSTANCE Hyp
\* as a set of types: a dictionary has no order
AsSet(ts) == {ts[k] : k \in 1..Len(ts)}
SameEvents(a, b) == /\ Len(a) = Len(b)
                    /\ \A k \in 1..Len(a) : Len(a[k].types) = Len(b[k].types) /\ AsSet(a[k].types) = AsSet(b[k].types)
RowsOf(ts, t) == SelectSeq(ts, LAMBDA x : x.type = t)
CsvFails(e) ==
  LET want == C!CsvParse(e.lines)
  IN IF e.err # "" THEN CK("CsvParsed", FALSE)
     ELSE CK("CsvParsed", TRUE)
          \cup CK("CsvWritten", e.intended = [k \in 1..Len(want) |-> want[k].types])   \* the driver wrote what it meant to
          \cup CK("CsvEvents", Len(e.got) = Len(want))
          \cup CK("CsvRows", SameEvents(want, e.got))
          \cup CK("CsvUID", \A k \in 1..Len(want) : e.got[k].uid = want[k].uid)
          \cup CK("CsvPickled", e.pickled = e.got)
PicksOf(ps, t) == SelectSeq(ps, LAMBDA p : p.type = t)
HypFails(e) ==
  LET want == H!HypParse(e.lines)
      got == SelectSeq(e.got, LAMBDA p : p # <<>>)
      Types(ps) == {ps[k].type : k \in 1..Len(ps)}
  IN IF e.err # "" THEN CK("HypParsed", FALSE)
     ELSE CK("HypParsed", TRUE)
          \cup CK("HypEvents", Len(want) = Len(got))
          \cup CK("HypPicks", \A k \in 1..Len(want) : /\ Types(want[k]) = Types(got[k]) /\ Len(want[k]) = Len(got[k])
                                                     /\ \A t \in Types(want[k]) : PicksOf(want[k], t) = PicksOf(got[k], t))
SameNum(x, y) == REq(x, y) \/ (RIsNaN(x) /\ RIsNaN(y))
SameSeq(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameNum(x[k], y[k])
Keys(c) == {c[k].key : k \in 1..Len(c)}
ValueOf(c, n) == (CHOOSE k \in 1..Len(c) : c[k].key = n)
BinFails(e) ==
  IF e.err # "" THEN CK("Written", FALSE)
  ELSE CK("Written", TRUE)
       \cup CK("Records", Len(e.got) = Len(e.want))
       \cup (IF Len(e.got) # Len(e.want) THEN {} ELSE UNION {
             CK("ScaleFactors", e.sf = e.sf_want) \cup CK("Probability", SameSeq(e.got[k].p, e.want[k].p))
             \cup CK("LogProbability", SameSeq(e.got[k].lnp, e.want[k].lnp))
             \cup CK("Total", e.got[k].total = e.want[k].total)
             \cup CK("Tensors", /\ Len(e.got[k].mt) = 6
                                /\ \A j \in 1..6 : /\ Len(e.got[k].mt[j]) = Len(e.want[k].mt[j])
                                                   /\ \A n \in 1..Len(e.want[k].mt[j]) : Near(e.got[k].mt[j][n], e.want[k].mt[j][n], R("0"), R("1e-14")))
             \cup CK("Converted", /\ Keys(e.got[k].conv) = Keys(e.want[k].conv)
                                  /\ \A n \in Keys(e.want[k].conv) : SameSeq(e.got[k].conv[ValueOf(e.got[k].conv, n)].x, e.want[k].conv[ValueOf(e.want[k].conv, n)].x))
             \cup CK("Evidence", SameSeq(e.got[k].other, e.want[k].other))
             : k \in 1..Len(e.want)})
Failing(e) == CASE e.op = "csv" -> CsvFails(e) [] e.op = "hyp" -> HypFails(e) [] OTHER -> BinFails(e)
TInit == i = 0
TNext == i < Len(Trace) /\ i' = i + 1 /\ Report(i + 1, Failing(Trace[i + 1]))
TPost == Finish(Len(Trace))
=============================================================================
