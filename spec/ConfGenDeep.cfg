SPECIFICATION Spec
CONSTANT AllPairs = TRUE
INVARIANT Gen
CHECK_DEADLOCK FALSE
