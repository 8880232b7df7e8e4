SPECIFICATION Spec
INVARIANT Gen
CHECK_DEADLOCK FALSE
