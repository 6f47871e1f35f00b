SPECIFICATION Spec
CONSTANTS
  Sets = {"a"}
  Seeds = {1, 2, 3}
  Msgs = {1, 2, 3}
  Rhos = {1, 2}
  Depth = 400
  Record = TRUE
INVARIANTS OneMessage FunctionalKeys Backed Injective Emit
CHECK_DEADLOCK FALSE
