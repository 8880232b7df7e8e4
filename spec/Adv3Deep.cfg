SPECIFICATION Spec
CONSTANTS Depth = 3
 Kinds = 42
 Lures = 1
INVARIANT Gen
CHECK_DEADLOCK FALSE
