SPECIFICATION Spec
INVARIANTS WordHelpers Compare Allocate
CHECK_DEADLOCK FALSE
