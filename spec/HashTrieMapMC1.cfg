SPECIFICATION Spec
CONSTANTS Keys = {0}  Use = {0, 1, 6, 9}
  Acts = {"clone", "drop", "ins", "rem", "find", "tr", "tm", "ff", "fm", "ftr", "mf", "mtr", "mm"}
VIEW View
INVARIANTS TypeOK Identity
PROPERTIES Persistence InsertLaw RemoveLaw UnaryLaw JointLaw
CHECK_DEADLOCK FALSE
