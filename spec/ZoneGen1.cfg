SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxDist = 2
 Base = 1
INVARIANT Gen
