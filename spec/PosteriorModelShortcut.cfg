SPECIFICATION Spec
CONSTANTS
 SHORTCUT = TRUE
 EARLY = FALSE
INVARIANTS IsProduct FilterExact
