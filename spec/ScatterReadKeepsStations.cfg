CONSTANT Reader = "keeps-stations"
INIT Init
NEXT Next
INVARIANT Faithful
