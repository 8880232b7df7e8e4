SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxDist = 2
 Base = 2
INVARIANT Gen
