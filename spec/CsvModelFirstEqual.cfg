CONSTANT Reader = "FirstEqual"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Prefix
