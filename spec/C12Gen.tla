------------------------------- MODULE C12Gen -------------------------------
(* Scenario space of C12: tensor families x call forms, and parameter strata on and inside the Tape domain *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Kinds == {"generic", "dc", "dcvertical", "dchorizontal", "dcstrikeslip", "dcdipslip", "dc45", "clvdplus", "clvdminus", "isoplus", "isominus", "neariso",
          "nearisominus", "repeatedtop", "repeatedbottom", "zeromiddle", "axisaligned", "vertical", "horizontal", "tinyoffset", "integers"}
TForms == {"array1d", "array61", "matrix61", "batch", "batchmatrix", "batchstrided"}
Tensors == [op : {"mt"}, kind : Kinds, form : TForms, k : 1..(IF EnvVar("VP_TIER") = "quick" THEN 2 ELSE 12)]
G == {"min", "zero", "max", "random", "tiny"}
D == {"min", "nearmin", "zero", "random", "max"}
K == {"zero", "quarter", "random", "below2pi"}
H == {"zero", "tiny", "random", "nearone", "one"}
S == {"min", "nearmin", "zero", "random", "max"}
Pars == [op : {"par"}, g : G, d : D, k : K, h : H, s : S]
PForms == [op : {"parform"}, form : {"scalar", "list", "array1", "batch", "batchstrided", "batch6", "batch3"}, k : 1..4]
Scenarios == Tensors \cup Pars \cup PForms
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
