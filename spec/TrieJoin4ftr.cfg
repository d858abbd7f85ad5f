SPECIFICATION JSpec
CONSTANTS N = 4  Emit = FALSE  Joins = TRUE  Consts = FALSE
  Kinds = {"ftr"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
