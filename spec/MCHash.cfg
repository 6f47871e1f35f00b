CONSTANTS Keys = {0, 1, 2, 27, 131, 255}
 Elems = {0, 1, 2, 128, 255, 90}
 MaxLen = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Incremental Linear FewRoots VoleLinear
