SPECIFICATION Spec
CONSTANTS
 BUG = "unbounded"
 DEPTH = 12
 WINDOWS = 7
INVARIANT Positive
INVARIANT NotAboveMaximum
