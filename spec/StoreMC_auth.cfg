SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 0
  AccL = 1
  RefL = 2
  Profile = "auth"
  Emit = FALSE
VIEW Seen
ACTION_CONSTRAINT Edge
INVARIANTS OneHolder IdOfToken NoneOutlives Bounded DeadAreDead Total AllAgree OnlyPairRefreshes
PROPERTIES Steps
CHECK_DEADLOCK FALSE
