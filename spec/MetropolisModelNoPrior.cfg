SPECIFICATION Spec
CONSTANTS
 BUG = "noprior"
 LMAX = 2
INVARIANTS Balance Reversible Stochastic ZeroNeverEntered ZeroAlwaysLeft
