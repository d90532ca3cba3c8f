CONSTANTS
  Ids = {1, 2}
  Gen = TRUE
INIT Init
NEXT Next
INVARIANTS AckOnce Honest OneStop Ended OneCall
CHECK_DEADLOCK FALSE
