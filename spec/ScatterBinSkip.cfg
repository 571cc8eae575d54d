CONSTANT Rule = "skip"
INIT Init
NEXT Next
INVARIANT OnePerBin
