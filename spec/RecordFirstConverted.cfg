CONSTANT Reader = "FirstConverted"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Boundary
