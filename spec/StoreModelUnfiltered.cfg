SPECIFICATION Spec
CONSTANTS
 INC = 2
 MAXB = 2
 BUG = "unfiltered"
INVARIANTS Refines CountsAll
