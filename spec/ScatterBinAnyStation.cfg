CONSTANT Rule = "any-station"
INIT Init
NEXT Next
INVARIANT OnlyNear
