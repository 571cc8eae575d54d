------------------------------- MODULE C10Gen -------------------------------
(* Scenario space of C10 *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Mags == {"order1", "neg1e3", "neg1e5", "pos1e3", "wide", "equal", "spread"}
Infs == {"none", "one", "half", "allbutone"}
Ns == {"exact", "more", "many"}
Sizes == {1, 2, 7, 60}
Vols == {"1", "1e-6", "31.006", "1e5"}
Evid == [op : {"evid"}, box : {"lnpdf", "array", "matrix", "flat"}, n : Sizes, mag : Mags, inf : Infs \cup {"all"}, N : Ns, events : {1, 2, 3}, prior : {"one", "weights"}]
Store == [op : {"store"}, n : {1, 7, 60}, mag : Mags, inf : Infs, N : Ns, events : {1, 2}, convert : BOOLEAN, discard : {0, 10000}, dc : BOOLEAN]
Model == [op : {"model"}, n : 2..5, mag : {"order1", "wide3", "equal", "tie-top"}, type : {"float", "np"}]
DklE == [op : {"dkle"}, box : {"lnpdf", "array", "matrix", "flat"}, n : Sizes, mag : Mags, inf : Infs, N : Ns, V : Vols]
Dkl == [op : {"dkl"}, box : {"lnpdf", "flat"}, n : Sizes, mag : Mags, mag2 : Mags \cup {"same"}, inf : Infs, inf2 : {"none", "same", "half"}, V : {"1", "0.01"}]
OK(x) == x.op = "evid" => (x.prior = "one" \/ x.box \in {"array", "lnpdf"})
Init == s \in {x \in Evid \cup Store \cup Model \cup DklE \cup Dkl : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
