------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* The binary moment-tensor file: records one after the other, each of      *)
(*   version, total, stored, converted?, evidence, dkl,                     *)
(*   and per stored sample 8 numbers, 13 more when converted.               *)
(* Writer and reader are state machines moving over the cells of the file;  *)
(* a cell carries what the writer put there, so a reader which is off by    *)
(* one gives wrong values.  Every sequence of up to three small records is  *)
(* read back as it was written, with the reader at a record boundary after  *)
(* each of them.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Reader   \* "right", or how it is wrong (negative models)
VARIABLES want, file, out, pos, phase
vars == <<want, file, out, pos, phase>>
Base == 3    \* 8 in the file; the number does not matter
Extra == 2   \* 13 in the file
Rec == [total : {0, 2, 3}, n : 0..2, conv : BOOLEAN]
Inputs == UNION {[1..m -> Rec] : m \in 1..3}
\* cells are <<record, what, sample, index>>
Sample(r, k, conv) == [j \in 1..(Base + (IF conv THEN Extra ELSE 0)) |-> <<r, "x", k, j>>]
RECURSIVE Samples(_, _, _, _)
Samples(r, k, n, conv) == IF k > n THEN <<>> ELSE Sample(r, k, conv) \o Samples(r, k + 1, n, conv)
WriteRec(r, x) == <<<<r, "version", 2, 0>>, <<r, "total", x.total, 0>>, <<r, "n", x.n, 0>>, <<r, "conv", IF x.conv THEN 1 ELSE 0, 0>>, <<r, "evidence", 0, 0>>, <<r, "dkl", 0, 0>>>>
                  \o Samples(r, 1, x.n, x.conv)
RECURSIVE WriteAll(_, _)
WriteAll(x, m) == IF m = 0 THEN <<>> ELSE WriteAll(x, m - 1) \o WriteRec(m, x[m])
ReadCount(p) == IF Reader = "Total" THEN file[p + 1][3] ELSE file[p + 2][3]
ReadConv(p) == IF Reader = "FirstConverted" /\ out # <<>> THEN out[1].conv ELSE file[p + 3][3] = 1
Header == IF Reader = "VersionOnce" /\ out # <<>> THEN 5 ELSE 6
Init == /\ want \in Inputs /\ file = WriteAll(want, Len(want)) /\ out = <<>> /\ pos = 1 /\ phase = "read"
\* one record; "stuck" when the file ends inside it or the numbers make no sense
ReadRecord ==
  /\ phase = "read" /\ pos <= Len(file)
  /\ LET p == IF Header = 5 THEN pos - 1 ELSE pos
         ok == p + 5 <= Len(file) /\ file[p + 1][2] = "total"
         n == ReadCount(p)
         conv == ReadConv(p)
         w == Base + (IF conv THEN Extra ELSE 0)
     IN IF ~ok \/ p + 5 + n * w > Len(file) THEN phase' = "stuck" /\ UNCHANGED <<want, file, out, pos>>
        ELSE /\ out' = Append(out, [total |-> file[p + 1][3], n |-> n, conv |-> conv, cells |-> SubSeq(file, p + 6, p + 5 + n * w)])
             /\ pos' = p + 6 + n * w /\ UNCHANGED <<want, file, phase>>
End == phase = "read" /\ pos > Len(file) /\ phase' = "done" /\ UNCHANGED <<want, file, out, pos>>
Stay == phase # "read" /\ UNCHANGED vars
Next == ReadRecord \/ End \/ Stay
Same(k) == out[k].total = want[k].total /\ out[k].n = want[k].n /\ out[k].conv = want[k].conv /\ out[k].cells = Samples(k, 1, want[k].n, want[k].conv)
RoundTrip == /\ phase # "stuck" /\ Len(out) <= Len(want) /\ \A k \in 1..Len(out) : Same(k)
             /\ phase = "done" => Len(out) = Len(want)
\* the reader is at a record boundary between records
Boundary == (phase = "read" /\ pos <= Len(file)) => file[pos][2] = "version"
=============================================================================
