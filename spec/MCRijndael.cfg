CONSTANT Step = 23
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Circuit_ Length
