CONSTANTS Threads = {1, 2, 3}
 Keys = {1}
 Phases = 2
 Record = TRUE
SPECIFICATION Spec
CONSTRAINT Note
CHECK_DEADLOCK FALSE
