CONSTANTS
  Docs = {"a"}
  Texts = {1, 2}
  Slots = 2
  QCap = 3
  MaxSend = 4
  MaxDots = 2
  Kinds = {"text", "query", "cmd", "cancel", "down"}
  HoldLock = FALSE
  Detached = TRUE
SPECIFICATION LoopSpec
INVARIANTS NoCrash Linearised AtMostOnce NoLoss Orderly
PROPERTIES Live
CHECK_DEADLOCK FALSE
