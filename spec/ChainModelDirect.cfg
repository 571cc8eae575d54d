SPECIFICATION Spec
CONSTANTS
 L = 0
 M = 5
 NMAX = 3
 STEPS = 5
 BUG = ""
INVARIANT SameRecord
INVARIANT SameCounts
INVARIANT EndsAtLength
INVARIANT Counted
