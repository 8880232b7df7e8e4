SPECIFICATION Spec
CONSTANTS Levels = 3
 Servers = 2
 Kinds = {"silent", "unres", "far"}
 Counts = {1, 9}
 Confs = 1
INVARIANT Gen
CHECK_DEADLOCK FALSE
