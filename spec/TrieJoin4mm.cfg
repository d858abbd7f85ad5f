SPECIFICATION JSpec
CONSTANTS N = 4  Emit = FALSE  Joins = TRUE  Consts = FALSE
  Kinds = {"mm"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
