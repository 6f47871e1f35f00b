SPECIFICATION Spec
CONSTANTS Depth = 3 Mod = 32
INVARIANTS NoRepeat AllUsed Complete Emit
CHECK_DEADLOCK FALSE
