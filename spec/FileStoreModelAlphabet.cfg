SPECIFICATION Spec
CONSTANTS
 MAXB = 4
 BUG = "alphabet"
INVARIANT Aligned
