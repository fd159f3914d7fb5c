SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Mistake = "stale"
INVARIANTS GetFromHistory StoreFromHistory
CHECK_DEADLOCK FALSE
