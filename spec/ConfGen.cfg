SPECIFICATION Spec
CONSTANT AllPairs = FALSE
INVARIANT Gen
CHECK_DEADLOCK FALSE
