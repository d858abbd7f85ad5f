SPECIFICATION Spec
CONSTANTS Keys = {0, 1, 2}  Use = {0, 1}
  Acts = {"clone", "drop", "ins", "rem", "find"}
VIEW View
INVARIANTS TypeOK Identity
PROPERTIES Persistence InsertLaw RemoveLaw UnaryLaw JointLaw
CHECK_DEADLOCK FALSE
