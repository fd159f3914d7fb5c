SPECIFICATION Spec
CONSTANTS
  Kind = "bolt"
  Max = 1
  AccL = 1
  RefL = 2
  Profile = "cap"
  Depth = 4
INVARIANTS StatusFromHistory GrantedToCurrent AtMostOnce DataFromHistory KeysFromHistory BoundFromHistory
CHECK_DEADLOCK FALSE
