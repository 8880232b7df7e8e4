SPECIFICATION Spec
CONSTANT TwoChanges = TRUE
INVARIANT Gen
CHECK_DEADLOCK FALSE
