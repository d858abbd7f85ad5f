SPECIFICATION Spec
CONSTANTS Leaves = 4  MaxChain = 2  Ordered = TRUE  NoIdentity = FALSE
INVARIANTS Once Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
