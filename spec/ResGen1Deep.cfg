SPECIFICATION Spec
CONSTANTS Depth = 1
 Dist = 5
INVARIANT Gen
CHECK_DEADLOCK FALSE
