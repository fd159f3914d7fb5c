SPECIFICATION Spec
CONSTANTS
  Kind = "mem"
  Max = 0
  AccL = 1
  RefL = 1
  Batch = 0
  Clients = {"c1", "c2"}
  NOps = 2
  Horizon = 1
  HasClose = TRUE
  WithSweep = FALSE
  Broken = "deaf"
INVARIANTS Consistent Bound Locked
PROPERTIES Refinement Returns Ends
CHECK_DEADLOCK FALSE
