SPECIFICATION Spec
INVARIANTS Exactly Whole
CHECK_DEADLOCK FALSE
