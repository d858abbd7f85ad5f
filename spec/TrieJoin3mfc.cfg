SPECIFICATION JSpec
CONSTANTS N = 3  Emit = FALSE  Joins = TRUE  Consts = TRUE
  Kinds = {"mf"}
VIEW JView
INVARIANT JoinOk
CHECK_DEADLOCK FALSE
