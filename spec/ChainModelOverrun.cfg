SPECIFICATION Spec
CONSTANTS
 L = 2
 M = 4
 NMAX = 3
 STEPS = 6
 BUG = "overrun"
INVARIANT SameRecord
INVARIANT SameCounts
INVARIANT EndsAtLength
INVARIANT Counted
