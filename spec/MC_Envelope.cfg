SPECIFICATION Spec
INVARIANTS Whole Budget Fresh
CHECK_DEADLOCK FALSE
