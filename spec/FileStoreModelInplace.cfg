SPECIFICATION Spec
CONSTANTS
 MAXB = 4
 BUG = "inplace"
INVARIANT Aligned
