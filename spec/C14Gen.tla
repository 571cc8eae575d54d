------------------------------- MODULE C14Gen -------------------------------
(* Scenario space of C14: eigen-structure x axes x scale x call form; source types x eigenvalue order; stiffness; crack + double couple *)
EXTENDS TraceIO, TLC
VARIABLES s, out
Spectra == {"generic", "repeatedtop", "repeatedbottom", "isoplus", "isominus", "dc", "clvdplus", "clvdminus", "onezero", "twozero", "neardegenerate", "neariso", "iso+dc"}
Axes == {"random", "aligned", "permuted", "rotatedz"}
Scales == {"unit", "tiny", "huge", "random"}
EForms == {"mt33", "mt33array", "mt6single", "mt6batch", "mt6matrix"}
Orders == 1..6
CDCa == {"zero", "tiny", "random", "near", "half"}
CDCn == {"nearminus1", "negative", "zero", "quarter", "positive", "nearhalf"}
Stiffs == {"isotropic", "vti", "generic", "nearisotropic", "stiffbulk"}
Tens == {"generic", "dc", "iso", "unitvector"}
Scenarios == [op : {"eig"}, spectrum : Spectra, axes : Axes, scale : Scales, form : EForms]
        \cup [op : {"type"}, spectrum : Spectra, order : Orders, scale : Scales, form : {"single", "column", "batch", "list"}]
        \cup [op : {"cdc"}, a : CDCa, nu : CDCn, form : {"scalar", "array"}]
        \cup [op : {"stiff"}, c : Stiffs, t : Tens, form : {"flat", "column"}, k : 1..4]
        \* isotropic but for one of the 21 elements
        \cup [op : {"stiff"}, c : {"oneoff"}, t : {"generic"}, form : {"flat", "column"}, k : 1..21]
Init == s \in Scenarios /\ out = FALSE
Next == ~out /\ out' = TRUE /\ s' = s /\ NdJsonAppend(EnvVar("VP_OUT"), s)
=============================================================================
