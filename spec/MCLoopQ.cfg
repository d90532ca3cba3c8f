CONSTANTS
  Docs = {"a", "b"}
  Texts = {1, 2}
  Slots = 2
  QCap = 8
  MaxSend = 4
  MaxDots = 2
  Kinds = {"text", "query", "cmd", "cancel", "down"}
  HoldLock = FALSE
  Detached = TRUE
SPECIFICATION LoopSpec
INVARIANTS NoCrash Linearised AtMostOnce NoLoss Orderly
CHECK_DEADLOCK FALSE
