SPECIFICATION Spec
CONSTANTS Levels = 1
 Servers = 2
 Kinds = {"silent", "late", "unreach", "refused", "garbage", "short", "cut", "wrongid", "servfail", "formerr", "notimp", "refuse", "empty", "nxnoaa", "up", "unres", "far", "unnd", "unal", "undead", "unloop"}
 Counts = {1, 2, 9}
 Confs = 3
INVARIANT Gen
CHECK_DEADLOCK FALSE
