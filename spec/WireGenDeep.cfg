SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Bound
INVARIANT RoundTrip
CONSTANTS
 MaxRecs = 2
 Deep = TRUE
