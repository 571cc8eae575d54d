------------------------------- MODULE C13Gen -------------------------------
(* Scenario space of C13: strike x dip x rake strata (boundaries, near-boundaries, interior) x call form *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Strikes == {"zero", "tiny", "quarter", "half", "threequarter", "below2pi", "random"}
Dips == {"zero", "tiny", "small", "random", "fortyfive", "nearvertical", "vertical"}
Rakes == {"zero", "tiny", "pi", "minuspi", "half", "minushalf", "nearhalf", "overhalf", "positive", "negative"}
Forms == {"scalar", "array1", "batch"}
Angles == [op : {"angles"}, strike : Strikes, dip : Dips, rake : Rakes, form : Forms]
\* near-horizontal planes slipping within a radian of dip-slip: the only ones whose two strikes can be listed within one radian
Close == [op : {"close"}, form : Forms, k : 1..8]
Scenarios == Angles \cup Close
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
