SPECIFICATION Spec
CONSTANTS Cells = 7  Threads = 2  MaxOps = 1  Borrowed = FALSE  Fault = "none"
INVARIANTS Counted NoDangling DropOnce Persist Clean
CHECK_DEADLOCK FALSE
