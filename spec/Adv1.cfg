SPECIFICATION Spec
CONSTANTS Depth = 1
 Kinds = 42
 Lures = 6
INVARIANT Gen
CHECK_DEADLOCK FALSE
