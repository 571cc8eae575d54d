CONSTANT Reader = "right"
INIT Init
NEXT Next
INVARIANT Faithful
INVARIANT Stable
INVARIANT RoundTrip
