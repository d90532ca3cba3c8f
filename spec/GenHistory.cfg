CONSTANTS
  Docs = {"a", "b"}
  Texts = {1, 2}
INIT Init
NEXT Next
INVARIANTS LastWins OncePerText
CHECK_DEADLOCK FALSE
