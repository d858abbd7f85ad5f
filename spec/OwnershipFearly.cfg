SPECIFICATION Spec
CONSTANTS Cells = 9  Threads = 2  MaxOps = 2  Borrowed = FALSE  Fault = "early"
INVARIANTS Counted NoDangling DropOnce Persist Clean
CHECK_DEADLOCK FALSE
