SPECIFICATION Spec
CONSTANTS
  InPlace = TRUE
  KeepsPartial = FALSE
  Uncaught = FALSE
  SkipsLast = FALSE
INVARIANT SameAnswer
INVARIANT Answered

