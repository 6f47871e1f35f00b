CONSTANTS R = 4
 MaxIn = 14
 MaxOut = 13
 Pieces = {0, 1, 3, 4, 5, 8, 9}
 Word = 0
 FastPath = TRUE
 Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Absorbed Padded Squeezed Blocks Emit
