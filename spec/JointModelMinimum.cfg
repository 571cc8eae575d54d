SPECIFICATION Spec
CONSTANTS
 POSITIONAL = FALSE
 STALE = FALSE
 ANYROW = FALSE
 WRONGMIN = TRUE
INVARIANT Additive
INVARIANT FilterExact
PROPERTY Finishes
