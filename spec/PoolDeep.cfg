SPECIFICATION Spec
CONSTANTS N = 3
 J = 6
INVARIANTS ExactlyOnce InOrder NeverShrinks AllRun
PROPERTIES EveryJobRuns ShutdownEnds
CHECK_DEADLOCK FALSE
