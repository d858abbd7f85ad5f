SPECIFICATION JSpec
CONSTANTS N = 4  Emit = FALSE  Joins = TRUE  Consts = TRUE
  Kinds = {"mtr"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
