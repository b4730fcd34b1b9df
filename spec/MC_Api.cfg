SPECIFICATION Spec
INVARIANTS Mirrored NotStuck AtEnd Fresh Counted1 Cumulative
CHECK_DEADLOCK FALSE
