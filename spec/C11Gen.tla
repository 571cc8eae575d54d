------------------------------- MODULE C11Gen -------------------------------
(* Scenario space of C11: angle strata x phase x unit x container; data dictionaries: type combinations x station orders x location-record orders *)
EXTENDS TraceIO, TLC, Integers, Sequences, FiniteSets, SequencesExt
VARIABLES s, out
Az == {"zero", "quarter", "half", "interior", "negative", "beyond", "huge", "boundary"}
Toa == {"down", "up", "horizontal", "interior", "near"}
Phases == {"P", "SH", "SV", "p", "Sh", "PQ", "SHQ", "P/SH", "P/SV", "SH/SV", "SV/P", "PQ/SHQ"}
Angles == [op : {"angles"}, az : Az, toa : Toa, phase : Phases, radians : BOOLEAN, form : {"column", "row", "list", "one"}]
Names == {"A", "B", "C"}
Orders(S) == UNION {SetToSeqs(T) : T \in (SUBSET S) \ {{}}}
Records == SetToSeqs(Names) \cup {<<"D", "C", "A", "B">>, <<"B", "D", "A", "E", "C">>, <<"C", "A">>, <<"B">>}
Fns == {"polarity", "polprob", "ratio", "relative"}
Ipp == {"none", "given", "zero"}
Meets(l, r) == {l[j] : j \in 1..Len(l)} \cap {r[j] : j \in 1..Len(r)} # {}
One == [op : {"matrix"}, fn : Fns, lists : {<< l >> : l \in Orders(Names)}, record : Records \cup {<<>>}, nrec : {1, 3}, vary : BOOLEAN, ipp : {<< p >> : p \in Ipp}, suffix : {0}]
L2 == {<<"A", "B">>, <<"C", "A", "B">>, <<"B">>, <<"C", "B">>, <<"B", "C", "A">>}
Two == [op : {"matrix"}, fn : Fns, lists : {<< a, b >> : a, b \in L2}, record : {<<>>, <<"B", "C", "A">>, <<"C", "D", "B", "A">>}, nrec : {2}, vary : BOOLEAN,
        ipp : {<< p, q >> : p, q \in Ipp}, suffix : {0}]
Three == [op : {"matrix"}, fn : Fns, lists : {<< a, b, c >> : a, b, c \in {<<"A", "B">>, <<"C", "A", "B">>, <<"B">>}}, record : {<<>>, <<"C", "B", "A">>}, nrec : {2}, vary : {FALSE},
          ipp : {<< p, q, r >> : p, q, r \in {"none", "given"}}, suffix : {0}]
Suffix == [op : {"matrix"}, fn : {"ratio", "relative", "polarity"}, lists : {<< <<"C", "A", "B">> >>}, record : {<<>>, <<"B", "C", "A">>}, nrec : {2}, vary : {FALSE}, ipp : {<< "none" >>}, suffix : 0..11]
Big == [op : {"big"}, fn : Fns, n : {7, 30}, types : 1..3, records : {0, 1, 5}, k : 1..3]
Same == [op : {"same"}, k : 1..20]
OK(x) == CASE x.op = "matrix" -> /\ \A t \in 1..Len(x.lists) : x.record = <<>> \/ Meets(x.lists[t], x.record)
                                 /\ x.fn \in {"ratio", "relative"} => \A t \in 1..Len(x.ipp) : x.ipp[t] = "none"
                                 /\ x.record = <<>> => (x.nrec = 2 /\ ~x.vary) \/ (Len(x.lists) = 1 /\ x.nrec = 1 /\ ~x.vary)
                                 /\ x.nrec = 1 => ~x.vary
           [] x.op = "angles" -> x.form \in {"column", "one"} \/ x.phase \in {"P", "SH", "SV", "P/SH"}
           [] OTHER -> TRUE
Init == s \in {x \in Angles \cup One \cup Two \cup Three \cup Suffix \cup Big : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
