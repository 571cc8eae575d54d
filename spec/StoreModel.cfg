SPECIFICATION Spec
CONSTANTS
 INC = 2
 MAXB = 2
 BUG = ""
INVARIANTS Refines CountsAll
INVARIANT NothingBeyond
PROPERTY Terminates