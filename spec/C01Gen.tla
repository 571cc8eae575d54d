------------------------------- MODULE C01Gen -------------------------------
(* Scenario space of C01: data-type combination x polarity types with / without mispick probability x location samples x weights x marginalise x filter x entry point *)
EXTENDS TraceIO, TLC, Integers, Sequences, FiniteSets
VARIABLES s, out
\* polarity information: none, manual polarities of one or two types, polarity probabilities of one or two types
Pol == {"none", "pol1", "pol2", "prob1", "prob2"}
Ratio == {"none", "one", "two"}
Ipp == {"none", "all", "some"}
Weights == {"none", "ones", "meanone", "random", "large"}
Loc == [K : {1}, weights : {"none"}, order : {"same"}, from : {"data"}]
       \cup [K : {1}, weights : {"random", "ones"}, order : {"same"}, from : {"records"}]
       \cup [K : {2, 3, 5}, weights : Weights, order : {"same", "vary", "dup"}, from : {"records"}]
Sigma == {"typical", "zero", "mixed", "tiny"}
Task == [op : {"task"}, pol : Pol, ratio : Ratio, ipp : Ipp, loc : Loc, sigma : Sigma, marg : BOOLEAN, keep : BOOLEAN, cand : {"generic", "impossible", "one"}]
Generate == [op : {"generate"}, pol : Pol, ratio : Ratio, ipp : {"none", "all"}, loc : Loc, sigma : {"typical"}, marg : BOOLEAN, keep : {FALSE}, cand : {"generic"}]
Inv == [op : {"inversion"}, pol : Pol, ratio : Ratio, ipp : Ipp, loc : Loc, sigma : Sigma, marg : {TRUE}, keep : {FALSE}, cand : {"generic", "dc", "cgen", "options", "subset"}]
OK(x) == /\ x.pol # "none" \/ x.ratio # "none"
         /\ x.pol \in {"none", "prob1", "prob2"} => x.sigma = "typical"
         /\ x.pol = "none" => x.ipp = "none"
         \* many stations with a few standard deviations each: log-likelihoods further apart than doubles reach
         /\ x.sigma = "tiny" => (x.op = "task" /\ x.ipp = "none" /\ x.marg /\ x.loc.K \in {2, 3} /\ x.cand # "one")
         /\ x.pol \in {"pol1", "prob1"} => x.ipp # "some"
         /\ (x.op = "inversion" /\ x.loc.from = "records") => x.loc.weights # "none"
         /\ x.cand = "options" => (x.pol # "none" /\ x.ratio # "none")
         /\ x.cand = "subset" => (x.pol = "pol2" \/ x.pol = "prob2" \/ x.ratio = "two")
Init == s \in {x \in Task \cup Generate \cup Inv : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
