SPECIFICATION Spec
INVARIANTS Noticed Found Covered
CHECK_DEADLOCK FALSE
