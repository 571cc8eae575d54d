SPECIFICATION Spec
CONSTANTS
 POSITIONAL = TRUE
 STALE = FALSE
 ANYROW = FALSE
 WRONGMIN = FALSE
INVARIANT Additive
INVARIANT FilterExact
PROPERTY Finishes
