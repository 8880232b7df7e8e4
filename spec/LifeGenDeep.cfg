SPECIFICATION Spec
CONSTANTS Delays = {0, 120, 600}
 Pools = {1, 2, 3}
 Reqs = {"none", "short", "long"}
 Full = TRUE
INVARIANT Gen
CHECK_DEADLOCK FALSE
