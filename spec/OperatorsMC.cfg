SPECIFICATION Spec
INVARIANT MirrorLaw
INVARIANT Involution
CHECK_DEADLOCK FALSE
