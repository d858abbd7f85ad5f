SPECIFICATION Spec
CONSTANT W = 6
INVARIANT TypeOK
INVARIANT RankBijection
INVARIANT InsertShifts
INVARIANT MergeIsUnion
INVARIANT Documented
VIEW View
CHECK_DEADLOCK FALSE
