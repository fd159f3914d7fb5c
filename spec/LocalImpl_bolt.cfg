SPECIFICATION Spec
CONSTANTS
  Kind = "bolt"
  Max = 1
  AccL = 1
  RefL = 2
  Batch = 0
  Clients = {"c1", "c2"}
  NOps = 2
  Horizon = 2
  HasClose = FALSE
  WithSweep = TRUE
  Broken = ""
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement
CHECK_DEADLOCK FALSE
