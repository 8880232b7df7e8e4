SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Depth = 3
 Ns = {1, 3, 8}
INVARIANTS CursorsInside BitsAreBits ReadBack FailsWithoutEffect RoundTrip Dump
