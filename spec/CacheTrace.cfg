SPECIFICATION Spec
CONSTANT Keys = {1, 2, 3}
CHECK_DEADLOCK FALSE
