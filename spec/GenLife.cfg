INIT Init
NEXT Next
INVARIANTS OneInit NoneBefore NoneAfter
PROPERTY Forward
CHECK_DEADLOCK FALSE
