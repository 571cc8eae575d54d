CONSTANT Reader = "Total"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Boundary
