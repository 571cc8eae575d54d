CONSTANT Rule = "chained"
INIT Init
NEXT Next
INVARIANT OnlyNear
