CONSTANTS Callers = {1, 2}
 Limit = 6
SPECIFICATION Spec
INVARIANTS Owned Idle Ledger Same
PROPERTY Ends
