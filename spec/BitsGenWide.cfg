SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Depth = 3
 Ns = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS CursorsInside BitsAreBits ReadBack FailsWithoutEffect RoundTrip Dump
