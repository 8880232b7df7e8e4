SPECIFICATION Spec
CONSTANTS Depth = 4
 Keys = {1, 2}
INVARIANTS Exact Gen
CHECK_DEADLOCK FALSE
