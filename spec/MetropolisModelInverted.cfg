SPECIFICATION Spec
CONSTANTS
 BUG = "inverted"
 LMAX = 2
INVARIANTS Balance Reversible Stochastic ZeroNeverEntered ZeroAlwaysLeft
