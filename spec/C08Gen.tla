------------------------------- MODULE C08Gen -------------------------------
(* Scenario space of C08: distribution x entry point x samples per call x number of events x state of the generator *)
EXTENDS TraceIO, TLC, Integers
VARIABLES s, out
Kinds == {"mt", "dc", "clvd"}
Entry == {"method", "sample", "events", "accelerated"}
Sizes == {1, 2, 3, 7, 64, 1000}
States == {"fresh", "seeded", "parallel"}
Thorough == EnvVar("VP_TIER") = "thorough"
Batch == [op : {"batch"}, kind : Kinds, entry : Entry, n : Sizes, state : States, reps : {4}]
Stats == [op : {"stats"}, kind : Kinds, entry : Entry, n : {1, 50, 20000}, state : {"fresh", "seeded"}, reps : {IF Thorough THEN 1000000 ELSE 200000}]
\* the accelerated entry points exist for full and double-couple tensors; the parallel draw concerns triads
OK(x) == /\ x.entry = "accelerated" => x.kind # "clvd"
         /\ x.state = "parallel" => x.kind # "mt"
Scenarios == {x \in Batch \cup Stats : OK(x)}
Init == s \in {x \in Batch \cup Stats : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
