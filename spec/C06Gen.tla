------------------------------- MODULE C06Gen -------------------------------
(* Scenario space of C06: current states x widths x models for proposals, adversarial normal draws, chain starts, and histories of learning windows *)
EXTENDS TraceIO, TLC, Sequences
VARIABLES s, out
Quick == EnvVar("VP_TIER") = "quick"
Apis == {"mh", "transd", "mtry", "mtrytransd"}
States == {"random", "lower", "upper", "nearlower", "nearupper", "mixed", "axis"}
Widths == {"tiny", "default", "max"}
Draws == {d \in [op : {"draws"}, api : Apis, events : {1, 2}, model : {"dc", "mt"}, from : States, width : Widths, jump : {"none", "some", "always"}, k : 1..(IF Quick THEN 1 ELSE 3)] :
            /\ (d.api \in {"mh", "mtry"}) => d.jump = "none"
            /\ (d.jump # "none") => d.width = "default" /\ d.from \in {"random", "mixed", "upper"}
            /\ d.events = 2 => d.from \in {"random", "mixed", "upper"} /\ d.width # "tiny"}
Adversarial == [op : {"adversarial"}, api : Apis, model : {"dc", "mt"}, from : States, width : Widths, k : 1..(IF Quick THEN 2 ELSE 10)]
Jumps == [op : {"jumpdraws"}, api : {"transd", "mtrytransd"}, events : {1, 2}, balw : {"small", "default", "wide", "flat"}, k : {1}]
Starts == [op : {"start"}, api : Apis, events : 1..3, dc : BOOLEAN, init : {"random", "given"}, k : 1..4]
Rates == {"none", "verylow", "low", "ok", "high", "all"}
Hists(n) == [1..n -> Rates]
Adapt == [op : {"adapt"}, route : {"windows"}, api : {"mh", "transd", "mtrytransd"}, events : {1, 2}, target : {"default"}, hist : UNION {Hists(n) : n \in 1..(IF Quick THEN 4 ELSE 5)}]
Long == [op : {"long"}, route : {"windows", "iterate"}, api : Apis, events : {1, 2}, target : {"default", "narrow", "wide"},
         pattern : Rates \cup {"random", "alternate", "sweep"}, k : 1..(IF Quick THEN 1 ELSE 6)]
\* one of the two routes for the short histories: the window statistics, and the same history through iterate for every third of them
Scenarios == Draws \cup Adversarial \cup Jumps \cup Starts \cup Adapt \cup Long
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
