------------------------------- MODULE C04Gen -------------------------------
(* Scenario space of C04: operation x container x shape x axis x magnitude stratum x -infinity pattern x volume element *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Mags == {"order1", "neg1e3", "neg1e5", "pos1e3", "pos1e4", "wide", "straddle", "equal", "zeros"}
Infs == {"none", "one", "half", "column", "row", "allbutone", "all"}
Vols == {"1", "1e-6", "0.1", "1e3"}
Shapes == {<<1>>, <<2>>, <<9>>, <<1, 1>>, <<1, 2>>, <<1, 9>>, <<2, 1>>, <<5, 1>>, <<2, 2>>, <<3, 5>>, <<7, 2>>}
Marg == [op : {"marg"}, box : {"array", "matrix", "lnpdf", "fortran", "view", "method"}, shape : Shapes, axis : {0, 1}, mag : Mags, inf : Infs, dV : Vols]
Norm == [op : {"norm"}, box : {"array", "matrix", "view", "method", "output"}, shape : Shapes, axis : {0}, mag : Mags, inf : Infs, dV : Vols]
OK(x) == /\ (Len(x.shape) = 1 => x.axis = 0 /\ x.box \in {"array", "view"})
         /\ (x.op = "norm" => x.inf \notin {"column", "row"})
         /\ (x.box = "output" => x.shape[1] > 1)
         /\ (EnvVar("VP_TIER") # "thorough" => (x.dV \in {"1", "1e-6"} \/ x.mag \in {"wide", "order1"}))
Init == s \in {x \in Marg \cup Norm : OK(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
