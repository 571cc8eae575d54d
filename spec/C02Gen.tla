------------------------------- MODULE C02Gen -------------------------------
(***************************************************************************)
(* Scenario space of C02: every combination of amplitude / uncertainty /    *)
(* mispick strata, for both kinds of polarity observation, single stations  *)
(* and shaped inputs.  TLC enumerates it; one state per scenario.           *)
(***************************************************************************)
EXTENDS TraceIO, TLC
VARIABLES s, out

Amps == {"zero", "tiny", "small", "unit", "large", "huge"}
Signs == {1, -1}
Sigmas == {"zero", "e300", "small", "typical", "wide", "huge"}
Wrong == {"none", "tiny", "quarter", "half", "threequarter", "one", "random"}
Forms == {"scalar", "station"}
Picks == {"zero", "one", "half", "random"}
Single == [op : {"pol"}, amp : Amps, sign : Signs, sigma : Sigmas, wrong : Wrong, form : Forms]
          \cup [op : {"prob"}, amp : Amps, sign : Signs, pp : Picks, pn : Picks, wrong : Wrong, form : Forms]
Shaped == [op : {"polshape", "probshape"}, S : {1, 2, 7}, K : {1, 3}, M : {1, 2, 5}, wrong : {"none", "quarter", "random"}, form : Forms, node : {"none", "one", "all"}, hard : {"none", "one", "all"}]
Mono == [op : {"mono"}, sigma : Sigmas, wrong : {"none", "tiny", "quarter"}, form : Forms]
Scenarios == Single \cup Shaped \cup Mono

Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
