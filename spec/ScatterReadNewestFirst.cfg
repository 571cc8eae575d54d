CONSTANT Reader = "newest-first"
INIT Init
NEXT Next
INVARIANT Faithful
