CONSTANT MaxDepth = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Hidden Complete OneSeedPerLevel RoundTrip
