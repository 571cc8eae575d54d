SPECIFICATION Spec
CONSTANTS
  InPlace = FALSE
  KeepsPartial = FALSE
  Uncaught = FALSE
  SkipsLast = TRUE
INVARIANT SameAnswer
INVARIANT Answered

