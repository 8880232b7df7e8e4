SPECIFICATION Spec
CONSTANTS Depth = 3
 Keys = {1, 2}
INVARIANTS Exact Gen
CHECK_DEADLOCK FALSE
