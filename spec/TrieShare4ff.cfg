SPECIFICATION JSpec
CONSTANTS N = 4  Emit = FALSE  Joins = TRUE  Consts = FALSE
  Kinds = {"ff"}
VIEW JView
INVARIANTS PointShare UnaryShare JoinShare
CHECK_DEADLOCK FALSE
