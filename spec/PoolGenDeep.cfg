SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3}
 Depth = 6
INVARIANTS Busy Gen
CHECK_DEADLOCK FALSE
