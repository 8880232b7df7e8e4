SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxDist = 3
 Base = 2
INVARIANT Gen
