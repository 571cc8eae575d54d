SPECIFICATION Spec
CONSTANTS
 INC = 2
 MAXB = 2
 BUG = "tried"
INVARIANTS Refines CountsAll
