SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 2
  AccL = 1
  RefL = 2
  Batch = 1
  Clients = {"c1", "c2"}
  NOps = 2
  Horizon = 2
  HasClose = FALSE
  WithSweep = TRUE
  Broken = ""
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement
CHECK_DEADLOCK FALSE
