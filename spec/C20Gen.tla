------------------------------- MODULE C20Gen -------------------------------
(* Scenario space of C20 beyond those of the routines' own properties: accumulating likelihoods, relative amplitudes, divergences, exponentials,
   tensors of chain states, and whole searches with and without generation in the compiled code *)
EXTENDS TraceIO, TLC, Sequences
VARIABLES s, out
Quick == EnvVar("VP_TIER") = "quick"
Ks == 1..(IF Quick THEN 2 ELSE 12)
Forms == {"plain", "fortran", "strided"}
Relative == [op : {"relative"}, S : {1, 2, 5}, K : {1, 3}, M : {1, 2, 4}, form : Forms, zero : {"none", "station", "tensor"}, k : Ks]
Div == [op : {"dkl", "uniform", "exp"}, n : {"one", "two", "many"}, mag : {"order1", "neg", "pos", "wide", "equal"}, inf : {"none", "p", "q", "both"}, dV : {"1", "0.01", "7.5"}, k : {1}]
Products == [op : {"polarity", "probability"}, S : {1, 2, 6, 17}, K : {1, 2, 5}, M : {1, 2, 9}, wrong : {"none", "scalar", "each"}, hard : BOOLEAN, form : Forms, k : {1}]
States == [op : {"sample"}, state : {"dc", "mt", "edge"}, k : 1..(IF Quick THEN 60 ELSE 1000)]
Fronts == [op : {"front"}, data : {"pol", "prob", "hard", "both"}, dc : BOOLEAN, generate : BOOLEAN, k : Ks]
Scenarios == Relative \cup Div \cup Products \cup States \cup Fronts
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
