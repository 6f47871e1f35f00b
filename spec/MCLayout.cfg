SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Sane Columns
