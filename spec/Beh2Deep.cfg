SPECIFICATION Spec
CONSTANTS Levels = 1
 Servers = 3
 Kinds = {"silent", "servfail", "unres", "far", "undead", "unloop", "unnd", "unreach", "wrongid"}
 Counts = {1, 2, 9}
 Confs = 3
INVARIANT Gen
CHECK_DEADLOCK FALSE
