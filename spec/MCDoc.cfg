INIT Init
NEXT Next
VIEW View
INVARIANTS InvTokens InvPositions InvSymbols InvRename InvShift InvFlow InvErrors
CHECK_DEADLOCK FALSE
