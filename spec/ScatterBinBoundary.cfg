CONSTANT Rule = "boundary"
INIT Init
NEXT Next
INVARIANT OnlyNear
