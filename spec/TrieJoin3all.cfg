SPECIFICATION JSpec
CONSTANTS N = 3  Emit = FALSE  Joins = TRUE  Consts = FALSE
  Kinds = {"ff", "fm", "ftr", "mf", "mtr", "mm"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
