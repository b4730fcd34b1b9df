SPECIFICATION Spec
INVARIANTS Nested CountedAll Fits Whole1
CHECK_DEADLOCK FALSE
