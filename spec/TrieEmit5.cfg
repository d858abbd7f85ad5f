SPECIFICATION Spec
CONSTANTS N = 5  Emit = TRUE  Joins = FALSE
VIEW View
INVARIANTS Refines WellFormed Lookup Done
CHECK_DEADLOCK FALSE
