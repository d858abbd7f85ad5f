SPECIFICATION JSpec
CONSTANTS N = 4  Emit = FALSE  Joins = TRUE  Consts = TRUE
  Kinds = {"ff"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
