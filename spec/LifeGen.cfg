SPECIFICATION Spec
CONSTANTS Delays = {0, 350}
 Pools = {1, 2}
 Reqs = {"none", "short", "long"}
 Full = FALSE
INVARIANT Gen
CHECK_DEADLOCK FALSE
