SPECIFICATION Spec
INVARIANT Known
PROPERTY Kept
CHECK_DEADLOCK FALSE
