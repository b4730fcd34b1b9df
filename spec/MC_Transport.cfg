SPECIFICATION Spec
INVARIANTS AllOrError EmitSched
PROPERTY Through
CHECK_DEADLOCK FALSE
