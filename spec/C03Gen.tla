------------------------------- MODULE C03Gen -------------------------------
(* Scenario space of C03: magnitudes, fractional errors, where the observed ratio sits, and normalisation integrals *)
EXTENDS TraceIO, RealArith, TLC, Quad
VARIABLES s, out
Mags == {"1e-3", "1e-2", "0.3", "1", "30", "1e3"}
Fracs == {"1e-5", "1e-4", "1e-3", "0.03", "0.3", "1", "5"}
Pos == {"peak", "near", "wing", "tail", "far", "low", "high"}
Point == [op : {"point"}, mx : Mags, my : Mags, fx : Fracs, fy : Fracs, pos : Pos]
Norm == [op : {"norm"}, mx : {"1e-3", "1", "30"}, my : {"1", "1e-2"}, fx : Fracs, fy : Fracs]
Shape == [op : {"shape"}, S : {1, 2, 6}, K : {1, 3}, M : {1, 2, 5}, sgn : {"pos", "mixed"}, f : {"small", "mixed"}]
Edge == [op : {"edge"}, which : {"zero-x", "zero-y", "zero-both"}, f : Fracs]
Thin(x) == IF EnvVar("VP_TIER") = "thorough" THEN TRUE
           ELSE x.op # "point" \/ (x.mx \in {"1e-3", "1", "1e3"} /\ x.my \in {"1e-3", "0.3", "1e3"})
Emit(x) == IF x.op = "norm"
           THEN NdJsonAppend(EnvVar("VP_OUT"), [op |-> "norm", mx |-> x.mx, my |-> x.my, fx |-> x.fx, fy |-> x.fy,
                                                r |-> RNodes(R(x.mx) \oslash R(x.my), R(x.fx), R(x.fy))])
           ELSE NdJsonAppend(EnvVar("VP_OUT"), x)
Init == s \in {x \in (Point \cup Norm \cup Shape \cup Edge) : Thin(x)} /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ Emit(s)
=============================================================================
