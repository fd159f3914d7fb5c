SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Mistake = "failed"
INVARIANTS GetFromHistory StoreFromHistory
CHECK_DEADLOCK FALSE
