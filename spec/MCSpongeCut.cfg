CONSTANTS R = 4
 MaxIn = 14
 MaxOut = 13
 Pieces = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
 Word = 8
 FastPath = TRUE
 Record = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Absorbed Padded Squeezed Blocks
PROPERTIES Ends
