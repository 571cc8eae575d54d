SPECIFICATION Spec
CONSTANTS
 MAXB = 4
 BUG = "stale"
INVARIANT Aligned
