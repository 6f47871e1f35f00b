SPECIFICATION Spec
CONSTANTS MaxCalls = 7 MaxLen = 4
INVARIANTS Contract NeverShort NoLeak FailsWhenCut Emit
CHECK_DEADLOCK FALSE
