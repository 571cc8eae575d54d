CONSTANT Reader = "StickyHeader"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Prefix
