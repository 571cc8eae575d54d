CONSTANT Rule = "weights-kept"
INIT Init
NEXT Next
INVARIANT Bounds
