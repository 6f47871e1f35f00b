CONSTANTS Threads = {1}
 Keys = {1, 2}
 Phases = 3
 Record = FALSE
SPECIFICATION Spec
INVARIANTS Sequential Lonely
CHECK_DEADLOCK FALSE
