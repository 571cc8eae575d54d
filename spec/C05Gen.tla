------------------------------- MODULE C05Gen -------------------------------
(* Scenario space of C05: state pairs x moves x likelihoods x widths x priors x entry points; batches of tries; prior points *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Quick == EnvVar("VP_TIER") = "quick"
One(n) == [1..n -> {"dc", "mt", "up", "down"}]
Fixed == {"mh", "mtry"}
Trans == {"transd", "mtrytransd"}
Priors == {"uniform", "flat"}
Strata == IF Quick THEN {"random", "bounds", "nearbound", "axis"} ELSE {"random", "bounds", "nearbound", "axis", "corner"}
Liks == {"near", "far", "fromzero", "tozero", "bothzero", "equal"}
Widths == IF Quick THEN {"tiny", "default", "max"} ELSE {"tiny", "default", "max", "mixed"}
Reps == IF Quick THEN {1} ELSE 1..2
Base == [op : {"pair"}, prior : Priors, from : Strata, to : Strata, lik : IF Quick THEN {"near", "far", "fromzero", "tozero"} ELSE Liks, width : Widths, pdc : {"half"}, jump : {"gauss"}, balw : {"default"}, k : Reps]
With(b, api, mv) == [op |-> b.op, api |-> api, moves |-> mv, prior |-> b.prior, from |-> b.from, to |-> b.to, lik |-> b.lik, width |-> b.width,
                     pdc |-> b.pdc, jump |-> b.jump, balw |-> b.balw, k |-> b.k]
\* one event; the strata of the target and the width matter only for shifts
Shift == {With(b, api, << m >>) : b \in Base, api \in Fixed \cup Trans, m \in {"dc", "mt"}}
Jump == {With(b, api, << m >>) : b \in [op : {"pair"}, prior : Priors, from : IF Quick THEN {"random", "bounds"} ELSE Strata,
                                        to : IF Quick THEN {"random", "nearbound"} ELSE Strata,
                                        lik : IF Quick THEN {"near", "far", "fromzero", "tozero"} ELSE Liks, width : {"default"},
                                        pdc : {"low", "half", "high"}, jump : {"gauss", "flat"}, balw : {"small", "default", "wide"}, k : {1}],
                                api \in Trans, m \in {"up", "down"}}
\* joint states of two and three events
Several == {With(b, api, mv) : b \in [op : {"pair"}, prior : Priors, from : {"random"}, to : {"random", "nearbound"}, lik : {"near", "fromzero", "tozero"},
                                      width : {"default", "mixed"}, pdc : {"low", "events"}, jump : {"gauss"}, balw : {"default"}, k : IF Quick THEN {1} ELSE 1..4],
                               api \in Trans, mv \in One(2) \cup One(3)}
Uniform(m, n) == [j \in 1..n |-> m]
SeveralFixed == {With(b, api, Uniform(m, n)) : b \in [op : {"pair"}, prior : Priors, from : {"random", "bounds"}, to : {"random", "nearbound"},
                                      lik : {"near", "far", "fromzero", "tozero"}, width : {"default", "max", "mixed"}, pdc : {"half"}, jump : {"gauss"},
                                      balw : {"default"}, k : Reps],
                               api \in Fixed, m \in {"dc", "mt"}, n \in {2, 3}}
Batches == {b \in [op : {"batch"}, api : {"mtry", "mtrytransd"}, prior : Priors, events : 1..2, n : {1, 2, 3, 5}, pattern : {"rising", "falling", "mixed", "zeros", "allzero"},
            start : {"finite", "zero"}, dc : BOOLEAN, k : 1..(IF Quick THEN 2 ELSE 10)] : TRUE}
Points == [op : {"prior"}, prior : Priors, g : 0..12, d : 0..12, api : {"mh", "mtrytransd"}]
Scenarios == Shift \cup Jump \cup Several \cup SeveralFixed \cup Batches \cup Points
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
