SPECIFICATION Spec
CONSTANTS
 BUG = "dropped"
 DEPTH = 12
 WINDOWS = 7
INVARIANT Positive
INVARIANT NotAboveMaximum
