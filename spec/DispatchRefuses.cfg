SPECIFICATION Spec
CONSTANTS
  InPlace = FALSE
  KeepsPartial = FALSE
  Uncaught = TRUE
  SkipsLast = FALSE
INVARIANT SameAnswer
INVARIANT Answered

