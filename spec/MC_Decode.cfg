SPECIFICATION Spec
INVARIANTS Demanded RightValue BudgetExact InBounds Limits LimitsOk NoPrefix
CHECK_DEADLOCK FALSE
