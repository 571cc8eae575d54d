CONSTANT Rule = "signed"
INIT Init
NEXT Next
INVARIANT OnlyNear
