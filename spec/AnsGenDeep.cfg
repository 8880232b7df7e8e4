SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Groups = 8
INVARIANT Gen
