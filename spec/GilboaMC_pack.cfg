SPECIFICATION Spec
CONSTANTS MaxM = 4 Pack = 2
INVARIANTS Correct RoundTrip
CHECK_DEADLOCK FALSE
