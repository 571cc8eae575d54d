------------------------------ MODULE CsvModel ------------------------------
(* Every small file, written with any header per data type and any separators, is read back as the events it states. *)
EXTENDS Csv
VARIABLES file, want, st, pos
N == <<"name", "azimuth", "takeoffangle", "measured", "error">>
HeaderText(n) == IF n = "name" THEN "Name" ELSE n
Orders == {<<1, 2, 3, 4, 5>>, <<3, 1, 5, 2, 4>>}
R1 == [name |-> "S1", az |-> <<"1">>, toa |-> <<"2">>, meas |-> <<"3">>, err |-> <<"4">>]
R2 == [name |-> "S2", az |-> <<"5">>, toa |-> <<"6">>, meas |-> <<"7">>, err |-> <<"8">>]
Rows == {<<R1>>, <<R1, R2>>}
Typed == [type : {"P", "S"}, rows : Rows, order : Orders]
Types == {<<a>> : a \in Typed} \cup {x \in Typed \X Typed : x[1].type # x[2].type}
Events == [uid : {"", "U"}, types : Types]
Files == {<<a>> : a \in Events} \cup (Events \X Events)
Cell(r, c) == CASE c = 1 -> Field(r.name) [] c = 2 -> Field(r.az[1]) [] c = 3 -> Field(r.toa[1]) [] c = 4 -> Field(r.meas[1]) [] OTHER -> Field(r.err[1])
HeadLine(o) == [k \in 1..5 |-> [Field(HeaderText(N[o[k]])) EXCEPT !.low = N[o[k]]]]
Line(r, o) == [k \in 1..5 |-> Cell(r, o[k])]
One(f) == [k \in 1..5 |-> IF k = 1 THEN f ELSE Field("")]
Blank == [k \in 1..5 |-> Field("")]
RECURSIVE Flat(_, _)
Flat(f, n) == IF n = 0 THEN <<>> ELSE Flat(f, n - 1) \o f[n]
WriteType(t) == <<One(Field(t.type)), HeadLine(t.order)>> \o [k \in 1..Len(t.rows) |-> Line(t.rows[k], t.order)]
WriteEvent(e) == (IF e.uid = "" THEN <<>> ELSE <<One([Field("UID=" \o e.uid) EXCEPT !.uid = e.uid])>>) \o Flat([k \in 1..Len(e.types) |-> WriteType(e.types[k])], Len(e.types))
Write(x, ending) == Flat([k \in 1..Len(x) |-> WriteEvent(x[k]) \o (IF k < Len(x) \/ ending THEN <<Blank>> ELSE <<>>)], Len(x))
Wanted(x) == [k \in 1..Len(x) |-> [uid |-> IF x[k].uid = "" THEN ToString(k) ELSE x[k].uid,
                                  types |-> [j \in 1..Len(x[k].types) |-> [type |-> x[k].types[j].type, rows |-> x[k].types[j].rows]]]]
Init == \E x \in Files, ending \in BOOLEAN : file = Write(x, ending) /\ want = Wanted(x) /\ st = Start /\ pos = 1
Next == \/ pos <= Len(file) /\ st' = ReadLine(st, file[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<file, want>>
        \/ pos > Len(file) /\ UNCHANGED <<file, want, st, pos>>
RoundTrip == pos > Len(file) => EndOfFile(st) = want
\* nothing is read before it is written
Prefix == Len(st.events) <= Len(want) /\ \A k \in 1..Len(st.events) : Reader = "right" => st.events[k] = want[k]
=============================================================================
