CONSTANT Rule = "right"
INIT Init
NEXT Next
INVARIANT Mass
INVARIANT Originals
INVARIANT OnlyNear
INVARIANT EachOnce
INVARIANT Weights
INVARIANT OnePerBin
INVARIANT Bounds
