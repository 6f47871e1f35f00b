CONSTANT N = 60
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS GfOk XorOk CatsOk TrOk RXOk HoOk KfOk ShOk RunOk CtrOk
