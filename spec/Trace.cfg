SPECIFICATION Spec
INVARIANTS Sane
CHECK_DEADLOCK FALSE
