CONSTANTS Taus = {1, 2, 3, 5, 8}
 Roots = {0, 77}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Correlation Split
