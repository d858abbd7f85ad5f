SPECIFICATION Spec
CONSTANTS Leaves = 5  MaxChain = 2  Ordered = FALSE  NoIdentity = FALSE
INVARIANTS Once Same
PROPERTY Ends
CHECK_DEADLOCK FALSE
