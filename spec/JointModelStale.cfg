SPECIFICATION Spec
CONSTANTS
 POSITIONAL = FALSE
 STALE = TRUE
 ANYROW = FALSE
 WRONGMIN = FALSE
INVARIANT Additive
INVARIANT FilterExact
PROPERTY Finishes
