SPECIFICATION JSpec
CONSTANTS N = 4  Emit = FALSE  Joins = TRUE  Consts = TRUE
  Kinds = {"mm"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
