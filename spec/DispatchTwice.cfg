SPECIFICATION Spec
CONSTANTS
  InPlace = FALSE
  KeepsPartial = TRUE
  Uncaught = FALSE
  SkipsLast = FALSE
INVARIANT SameAnswer
INVARIANT Answered

