SPECIFICATION Spec
CONSTANT MaxDraws = 6
INVARIANTS Sound FailedIsFinal NoStale Emit
CHECK_DEADLOCK FALSE
