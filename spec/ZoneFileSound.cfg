SPECIFICATION Spec
INVARIANT Transparent Sound
CHECK_DEADLOCK FALSE
