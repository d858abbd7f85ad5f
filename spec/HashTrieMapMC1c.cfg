SPECIFICATION Spec
CONSTANTS Keys = {0}  Use = {0, 6, 9}
  Acts = {"ins", "rem", "tm", "mm"}
VIEW View
INVARIANTS TypeOK Identity
PROPERTIES Persistence InsertLaw RemoveLaw UnaryLaw JointLaw
CHECK_DEADLOCK FALSE
