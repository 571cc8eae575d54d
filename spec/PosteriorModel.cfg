SPECIFICATION Spec
CONSTANTS
 SHORTCUT = FALSE
 EARLY = FALSE
INVARIANTS IsProduct FilterExact
PROPERTY Finishes
