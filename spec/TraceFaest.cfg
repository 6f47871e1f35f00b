SPECIFICATION TSpec
CONSTRAINT Furthest
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW TView
