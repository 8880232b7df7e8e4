SPECIFICATION Spec
CONSTANTS Depth = 1
 Dist = 2
INVARIANT Gen
CHECK_DEADLOCK FALSE
