SPECIFICATION Spec
CONSTANTS
 L = 2
 M = 4
 NMAX = 3
 STEPS = 6
 BUG = "single"
INVARIANT SameRecord
INVARIANT SameCounts
INVARIANT EndsAtLength
INVARIANT Counted
