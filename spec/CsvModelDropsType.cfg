CONSTANT Reader = "DropsType"
INIT Init
NEXT Next
INVARIANT RoundTrip
INVARIANT Prefix
