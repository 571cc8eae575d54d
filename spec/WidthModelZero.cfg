SPECIFICATION Spec
CONSTANTS
 BUG = "zero"
 DEPTH = 12
 WINDOWS = 7
INVARIANT Positive
INVARIANT NotAboveMaximum
