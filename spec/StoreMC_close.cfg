SPECIFICATION Spec
CONSTANTS
  Kind = "bolt"
  Max = 1
  AccL = 1
  RefL = 2
  Profile = "close"
  Emit = FALSE
VIEW Seen
ACTION_CONSTRAINT Edge
INVARIANTS OneHolder IdOfToken NoneOutlives Bounded DeadAreDead Total AllAgree OnlyPairRefreshes
PROPERTIES Steps
CHECK_DEADLOCK FALSE
