SPECIFICATION Spec
CONSTANTS N = 3  Vals = 1
INVARIANTS ConstLaw UnaryConstLaw MirrorLaw SetLaw Algebra Total Points
CHECK_DEADLOCK FALSE
