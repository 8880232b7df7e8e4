SPECIFICATION Spec
CONSTANTS Sizes = {3}
 Depth = 5
INVARIANTS Busy Gen
CHECK_DEADLOCK FALSE
