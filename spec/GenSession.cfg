CONSTANTS
  Docs = {"a", "b"}
  Texts = {1, 2}
  Slots = 4
  QCap = 100
  MaxSend = 16
  MaxDots = 3
  Kinds = {"text", "query", "cmd", "cancel", "down"}
  HoldLock = FALSE
  Detached = TRUE
SPECIFICATION GenSpec
INVARIANTS NoCrash Linearised AtMostOnce NoLoss Orderly
CHECK_DEADLOCK FALSE
