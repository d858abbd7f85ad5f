SPECIFICATION Spec
CONSTANTS N = 3  Emit = FALSE  Joins = FALSE
VIEW View
INVARIANTS Refines WellFormed Lookup UnaryOk
CHECK_DEADLOCK FALSE
