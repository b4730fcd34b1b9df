SPECIFICATION Spec
INVARIANTS Bounded DepthHit
CHECK_DEADLOCK FALSE
