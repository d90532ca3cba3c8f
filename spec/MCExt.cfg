CONSTANTS
  Ids = {1, 2}
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS AckOnce Honest OneStop Ended OneCall
PROPERTIES Answered Stops
CHECK_DEADLOCK FALSE
