SPECIFICATION Spec
CONSTANTS Depth = 2
 Dist = 2
INVARIANT Gen
CHECK_DEADLOCK FALSE
