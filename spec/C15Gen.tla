------------------------------- MODULE C15Gen -------------------------------
(* Scenario space of C15: events x own data x overlap x station order x minimum x relative x filter x location samples x reuse x entry point *)
EXTENDS TraceIO, TLC, Integers, Sequences, FiniteSets
VARIABLES s, out
Own == {"pol", "hard", "ratio", "prob", "all", "mixed"}
Overlap == {"none", "one", "partial", "full", "order", "subset"}
Task == [op : {"task"}, E : 2..4, own : Own, over : Overlap, phases : 1..2, min : 0..4, rel : BOOLEAN, keep : BOOLEAN, loc : {"none", "events", "shared"}, reuse : BOOLEAN]
Pair == [op : {"pair"}, n : {1, 2, 3, 5, 8}, K : {1, 2}, f : {"typical", "small", "large", "uneven"}, order : {"reverse", "random"}]
Limit == [op : {"limit"}, n : {1, 2, 5}, eps : {"1e-2", "1e-4", "1e-6", "1e-7", "1e-8", "1e-10", "1e-12", "1e-14"}, noise : BOOLEAN, scale : {"1", "0.001", "40", "1e6"}]
Inv == [op : {"inversion"}, E : 2..3, own : Own, over : Overlap, phases : 1..2, min : 1..3, rel : BOOLEAN, loc : {"none"}]
Loop == [op : {"loop"}, E : 2..3, own : {"pol", "hard"}, over : {"full"}, phases : {1}, min : {1}, rel : BOOLEAN, loc : {"none"}]
\* near-exact relative amplitudes which rule candidates out while the pairs are being added
Rule == [op : {"rule"}, E : 2..4, own : {"pol", "prob", "hard"}, over : {"full", "order", "partial"}, phases : 1..2, min : 1..2, rel : {TRUE}, keep : BOOLEAN, loc : {"none", "shared"}]
OK(x) == /\ x.op = "task" => /\ (~x.rel => (x.min = 2 /\ x.phases = 1 /\ x.over = "partial"))
                             /\ (x.loc = "events" => ~x.rel)
         /\ x.op = "inversion" => (~x.rel => (x.min = 2 /\ x.phases = 1 /\ x.over = "partial"))
Init == s \in {x \in Task \cup Pair \cup Limit \cup Inv \cup Loop \cup Rule : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
