SPECIFICATION Spec
CONSTANTS Keys = {0, 1}  Use = {0, 1}
  Acts = {"clone", "drop", "ins", "tr"}
VIEW View
INVARIANTS TypeOK Identity
PROPERTIES Persistence InsertLaw RemoveLaw UnaryLaw JointLaw
CHECK_DEADLOCK FALSE
