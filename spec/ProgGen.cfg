SPECIFICATION Spec
CONSTANT TwoChanges = FALSE
INVARIANT Gen
CHECK_DEADLOCK FALSE
