SPECIFICATION Spec
INVARIANTS NumberKept NeverStuck
CHECK_DEADLOCK FALSE
