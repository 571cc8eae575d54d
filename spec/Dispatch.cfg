SPECIFICATION Spec
CONSTANTS
  InPlace = FALSE
  KeepsPartial = FALSE
  Uncaught = FALSE
  SkipsLast = FALSE
INVARIANT SameAnswer
INVARIANT Answered
INVARIANT Untouched
PROPERTY Ends
