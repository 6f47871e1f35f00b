SPECIFICATION Spec
CONSTANT Drop = "none"
INVARIANT Binding
CHECK_DEADLOCK FALSE
