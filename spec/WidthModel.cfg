SPECIFICATION Spec
CONSTANTS
 BUG = ""
 DEPTH = 12
 WINDOWS = 7
INVARIANT Positive
INVARIANT NotAboveMaximum
