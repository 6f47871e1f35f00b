CONSTANTS Threads = {1, 2, 3}
 Keys = {1, 2}
 Phases = 3
 Record = FALSE
SPECIFICATION Spec
INVARIANTS Sequential Lonely
CONSTRAINT Note
POSTCONDITION Refuted
CHECK_DEADLOCK FALSE
