CONSTANT Reader = "right"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Boundary
