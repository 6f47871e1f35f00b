SPECIFICATION Spec
CONSTANTS
  Sets = {"128f", "em_128f"}
  Seeds = {1, 2}
  Msgs = {1, 2}
  Rhos = {1, 2}
  Depth = 100
  Record = FALSE
INVARIANTS OneMessage FunctionalKeys Backed Injective
PROPERTIES Unforgeable Durable
VIEW View
CHECK_DEADLOCK FALSE
