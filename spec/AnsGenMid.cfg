SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Groups = 7
INVARIANT Gen
