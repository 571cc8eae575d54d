CONSTANT Rule = "first-station"
INIT Init
NEXT Next
INVARIANT OnlyNear
