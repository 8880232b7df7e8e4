SPECIFICATION Spec
CONSTANT LongJobs = TRUE
INVARIANTS StopsOnlyAfterAnEnd ReturnsOnlyAfterAnEnd NoDrainWhileUp
PROPERTIES TogetherDown
CHECK_DEADLOCK FALSE
