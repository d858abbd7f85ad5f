SPECIFICATION Spec
CONSTANTS N = 2  Vals = 2
INVARIANTS ConstLaw UnaryConstLaw MirrorLaw SetLaw Algebra Total Points
CHECK_DEADLOCK FALSE
