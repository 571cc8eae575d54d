CONSTANT Reader = "first-weight"
INIT Init
NEXT Next
INVARIANT Faithful
