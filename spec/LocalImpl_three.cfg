SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 1
  AccL = 1
  RefL = 1
  Batch = 1
  Clients = {"c1", "c2", "c3"}
  NOps = 1
  Horizon = 1
  HasClose = TRUE
  WithSweep = TRUE
  Broken = ""
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement
CHECK_DEADLOCK FALSE
