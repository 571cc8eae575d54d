----------------------------- MODULE ScatterRead -----------------------------
(* Every small well-formed file is read line by line as the records of its blocks *)
EXTENDS Scatter, TLC
VARIABLES file, st, pos
Line == {<<>>, <<"1">>, <<"2">>, <<"A", "10", "20">>, <<"B", "30", "40">>}
Files(n) == {f \in [1..n -> Line] : WellFormed(f)}
Init == \E n \in 0..7 : \E f \in Files(n) : file = f /\ st = ReadStart /\ pos = 1
Next == \/ pos <= Len(file) /\ st' = ReadLine(st, file[pos]) /\ pos' = pos + 1 /\ UNCHANGED file
        \/ pos > Len(file) /\ UNCHANGED <<file, st, pos>>
Faithful == pos > Len(file) => ReadEnd(st) = ScatParse(file)
\* the records already read never change
Stable == \A b \in 1..Len(st.recs) : st.recs[b] = ScatParse(file)[b]
\* reading what the writer makes of the records gives the records
RECURSIVE Written(_, _)
Written(bs, n) == IF n = 0 THEN <<>> ELSE Written(bs, n - 1) \o bs[n] \o << <<>> >>
RoundTrip == LET r == ScatParse(file) IN ScatParse(Written(ScatLines(r), Len(r))) = r
=============================================================================
