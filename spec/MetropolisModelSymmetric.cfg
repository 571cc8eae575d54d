SPECIFICATION Spec
CONSTANTS
 BUG = "symmetric"
 LMAX = 2
INVARIANTS Balance Reversible Stochastic ZeroNeverEntered ZeroAlwaysLeft
