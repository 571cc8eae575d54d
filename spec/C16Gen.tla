------------------------------- MODULE C16Gen -------------------------------
(* Scenario space of C16: workers x number of tasks x outcomes x order of submissions and collections x durations *)
EXTENDS TraceIO, TLC, Integers, Sequences, FiniteSets
VARIABLES s, out
Mix == {"values", "raise", "codes", "allcodes", "allraise", "exit", "odd", "mixed", "lnpdf", "big", "nothing"}
Plan == {"batch", "interleaved", "each", "trailing", "close", "reuse", "collectclose"}
Scen == [workers : {1, 2, 3, 4, 8, 16}, n : {0, 1, 2, 5, 20, 60, 200}, mix : Mix, plan : Plan, dur : {"none", "short", "random"}]
OK(x) == /\ x.n = 0 => (x.mix = "values" /\ x.plan \in {"batch", "close"} /\ x.dur = "none")
         /\ x.n = 200 => (x.mix \in {"mixed", "values", "lnpdf"} /\ x.plan \in {"batch", "interleaved", "reuse"})
         /\ x.n = 60 => x.workers > 1
         /\ (x.n < 3 /\ x.plan = "interleaved") => x.dur = "none"
Init == s \in {x \in Scen : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
