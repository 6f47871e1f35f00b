SPECIFICATION Spec
INVARIANTS Sane Emit
CHECK_DEADLOCK FALSE
