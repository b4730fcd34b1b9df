SPECIFICATION Spec
INVARIANTS RoundTrip InBounds
CHECK_DEADLOCK FALSE
