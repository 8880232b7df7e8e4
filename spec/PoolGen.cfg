SPECIFICATION Spec
CONSTANTS Sizes = {1, 2}
 Depth = 5
INVARIANTS Busy Gen
CHECK_DEADLOCK FALSE
