SPECIFICATION Spec
CONSTANTS
 SHORTCUT = FALSE
 EARLY = TRUE
INVARIANTS IsProduct FilterExact
