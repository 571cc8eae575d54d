SPECIFICATION Spec
CONSTANTS
 POSITIONAL = FALSE
 STALE = FALSE
 ANYROW = TRUE
 WRONGMIN = FALSE
INVARIANT Additive
INVARIANT FilterExact
PROPERTY Finishes
