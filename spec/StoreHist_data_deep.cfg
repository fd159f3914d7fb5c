SPECIFICATION Spec
CONSTANTS
  Kind = "bolt"
  Max = 0
  AccL = 2
  RefL = 3
  Profile = "data"
  Depth = 6
INVARIANTS StatusFromHistory GrantedToCurrent AtMostOnce DataFromHistory KeysFromHistory BoundFromHistory
CHECK_DEADLOCK FALSE
