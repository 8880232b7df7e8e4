SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxDist = 4
 Base = 1
INVARIANT Gen
