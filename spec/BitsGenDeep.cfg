SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Depth = 4
 Ns = {3, 8}
INVARIANTS CursorsInside BitsAreBits ReadBack FailsWithoutEffect RoundTrip Dump
