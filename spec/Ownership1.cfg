SPECIFICATION Spec
CONSTANTS Cells = 9  Threads = 1  MaxOps = 3  Borrowed = FALSE  Fault = "none"
INVARIANTS Counted NoDangling DropOnce Persist Clean
CHECK_DEADLOCK FALSE
