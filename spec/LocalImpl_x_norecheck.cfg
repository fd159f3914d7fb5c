SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 0
  AccL = 1
  RefL = 1
  Batch = 1
  Clients = {"c1", "c2"}
  NOps = 3
  Horizon = 1
  HasClose = FALSE
  WithSweep = FALSE
  Broken = "norecheck"
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement
CHECK_DEADLOCK FALSE
