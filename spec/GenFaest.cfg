SPECIFICATION GSpec
CONSTRAINT Furthest
POSTCONDITION Done
CHECK_DEADLOCK FALSE
VIEW GView
