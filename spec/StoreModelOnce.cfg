SPECIFICATION Spec
CONSTANTS
 INC = 2
 MAXB = 2
 BUG = "once"
INVARIANTS Refines CountsAll
