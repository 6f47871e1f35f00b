SPECIFICATION Spec
CONSTANTS
  Sets = {"a", "b", "c"}
  Seeds = {1, 2}
  Msgs = {1, 2, 3}
  Rhos = {1, 2}
  Depth = 40
  Record = TRUE
INVARIANTS OneMessage FunctionalKeys Backed Injective Emit
CHECK_DEADLOCK FALSE
