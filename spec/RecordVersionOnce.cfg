CONSTANT Reader = "VersionOnce"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Boundary
