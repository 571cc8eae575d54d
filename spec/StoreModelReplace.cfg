SPECIFICATION Spec
CONSTANTS
 INC = 2
 MAXB = 2
 BUG = "replace"
INVARIANTS Refines CountsAll
