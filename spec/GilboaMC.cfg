SPECIFICATION Spec
CONSTANTS MaxM = 8 Pack = 1
INVARIANTS Correct RoundTrip
CHECK_DEADLOCK FALSE
