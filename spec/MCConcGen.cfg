CONSTANTS Threads = {1, 2}
 Keys = {1}
 Phases = 3
 Record = TRUE
SPECIFICATION Spec
CONSTRAINT Note
CHECK_DEADLOCK FALSE
