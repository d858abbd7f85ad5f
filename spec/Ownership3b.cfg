SPECIFICATION Spec
CONSTANTS Cells = 9  Threads = 3  MaxOps = 1  Borrowed = TRUE  Fault = "none"
INVARIANTS Counted NoDangling DropOnce Persist Clean
CHECK_DEADLOCK FALSE
VIEW View
