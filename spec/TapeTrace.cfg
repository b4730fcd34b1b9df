SPECIFICATION Spec
INVARIANTS Nested
CHECK_DEADLOCK FALSE
