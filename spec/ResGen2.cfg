SPECIFICATION Spec
CONSTANTS Depth = 2
 Dist = 1
INVARIANT Gen
CHECK_DEADLOCK FALSE
