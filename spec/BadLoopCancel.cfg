CONSTANTS
  Docs = {"a"}
  Texts = {1, 2}
  Slots = 2
  QCap = 3
  MaxSend = 4
  MaxDots = 2
  Kinds = {"text", "query", "cmd", "cancel"}
  HoldLock = FALSE
  Detached = FALSE
SPECIFICATION LoopSpec
INVARIANTS NoCrash Linearised AtMostOnce NoLoss
PROPERTIES Live
CHECK_DEADLOCK FALSE
