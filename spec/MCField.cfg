SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Hom InverseOk Injective Frob
