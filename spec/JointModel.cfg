SPECIFICATION Spec
CONSTANTS
 POSITIONAL = FALSE
 STALE = FALSE
 ANYROW = FALSE
 WRONGMIN = FALSE
INVARIANT Additive
INVARIANT FilterExact
PROPERTY Finishes
