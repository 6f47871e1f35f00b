CONSTANT MaxLen = 2
SPECIFICATION Spec
INVARIANTS Lockstep Enough Sound
CHECK_DEADLOCK FALSE
