CONSTANT Reader = "needs-blank"
INIT Init
NEXT Next
INVARIANT Faithful
