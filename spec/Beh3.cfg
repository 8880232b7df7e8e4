SPECIFICATION Spec
CONSTANTS Levels = 2
 Servers = 2
 Kinds = {"silent", "refuse", "unres", "far"}
 Counts = {9}
 Confs = 2
INVARIANT Gen
CHECK_DEADLOCK FALSE
