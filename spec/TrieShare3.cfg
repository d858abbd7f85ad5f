SPECIFICATION JSpec
CONSTANTS N = 3  Emit = FALSE  Joins = TRUE  Consts = FALSE
  Kinds = {"ff", "fm", "ftr", "mf", "mtr"}
VIEW JView
INVARIANTS PointShare UnaryShare JoinShare
CHECK_DEADLOCK FALSE
