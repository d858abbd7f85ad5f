SPECIFICATION JSpec
CONSTANTS N = 3  Emit = FALSE  Joins = TRUE  Consts = FALSE
  Kinds = {"ftr"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
