SPECIFICATION Spec
CONSTANTS
 BUG = "nobalancing"
 LMAX = 2
INVARIANTS Balance Reversible Stochastic ZeroNeverEntered ZeroAlwaysLeft
