CONSTANT Rule = "positional"
INIT Init
NEXT Next
INVARIANT OnlyNear
