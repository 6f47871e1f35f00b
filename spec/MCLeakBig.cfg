CONSTANT MaxLen = 3
SPECIFICATION Spec
INVARIANTS Lockstep Enough Sound
CHECK_DEADLOCK FALSE
