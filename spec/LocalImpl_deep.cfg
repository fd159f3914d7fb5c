SPECIFICATION Spec
CONSTANTS
  Kind = "bolt"
  Max = 2
  AccL = 1
  RefL = 2
  Batch = 2
  Clients = {"c1", "c2"}
  NOps = 3
  Horizon = 2
  HasClose = TRUE
  WithSweep = TRUE
  Broken = ""
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement
CHECK_DEADLOCK FALSE
