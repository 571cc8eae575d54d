SPECIFICATION Spec
CONSTANTS
 W = 2
 NT = 3
 CAP = 1
 DIES = TRUE
 WAITCODE = FALSE
 NODRAIN = FALSE
 LOSES = FALSE
INVARIANT ExactlyOnce
INVARIANT NothingElse
INVARIANT Counted
INVARIANT Everything
INVARIANT NoneAlive
PROPERTY Exact
PROPERTY CollectEnds
PROPERTY CloseEnds
