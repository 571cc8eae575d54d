SPECIFICATION Spec
CONSTANTS
 BUG = ""
 LMAX = 2
INVARIANTS Balance Reversible Stochastic ZeroNeverEntered ZeroAlwaysLeft
