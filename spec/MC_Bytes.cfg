SPECIFICATION Spec
VIEW View
INVARIANTS Waiting Levels
CHECK_DEADLOCK FALSE
