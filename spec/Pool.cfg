SPECIFICATION Spec
CONSTANTS N = 2
 J = 4
INVARIANTS ExactlyOnce InOrder NeverShrinks AllRun
PROPERTIES EveryJobRuns ShutdownEnds
CHECK_DEADLOCK FALSE
