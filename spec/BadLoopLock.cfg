CONSTANTS
  Docs = {"a"}
  Texts = {1, 2}
  Slots = 2
  QCap = 3
  MaxSend = 4
  MaxDots = 1
  Kinds = {"text", "query", "cmd", "cancel"}
  HoldLock = TRUE
  Detached = TRUE
SPECIFICATION LazySpec
INVARIANTS NoCrash Linearised AtMostOnce NoLoss
PROPERTIES Responsive
CHECK_DEADLOCK FALSE
