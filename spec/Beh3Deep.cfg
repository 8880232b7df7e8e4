SPECIFICATION Spec
CONSTANTS Levels = 2
 Servers = 2
 Kinds = {"silent", "refuse", "unres", "far", "undead", "garbage"}
 Counts = {1, 9}
 Confs = 3
INVARIANT Gen
CHECK_DEADLOCK FALSE
