SPECIFICATION Spec
CONSTANTS Levels = 1
 Servers = 3
 Kinds = {"silent", "servfail", "unres", "far", "undead", "wrongid"}
 Counts = {1, 9}
 Confs = 1
INVARIANT Gen
CHECK_DEADLOCK FALSE
