SPECIFICATION Spec
CONSTANTS
 MAXB = 4
 BUG = ""
INVARIANT Aligned
PROPERTY Completes