SPECIFICATION Spec
CONSTANTS
  Keys = {0, 200}
  Ws = {0, 1, 2, 17, 63, 64, 99, 128, 199, 200, 201, 255}
  Challs = {1, 86}
INVARIANT Exact
CHECK_DEADLOCK FALSE
