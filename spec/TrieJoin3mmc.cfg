SPECIFICATION JSpec
CONSTANTS N = 3  Emit = FALSE  Joins = TRUE  Consts = TRUE
  Kinds = {"mm"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
