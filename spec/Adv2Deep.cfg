SPECIFICATION Spec
CONSTANTS Depth = 2
 Kinds = 42
 Lures = 3
INVARIANT Gen
CHECK_DEADLOCK FALSE
