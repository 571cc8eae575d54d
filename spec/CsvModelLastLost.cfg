CONSTANT Reader = "LastLost"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Prefix
