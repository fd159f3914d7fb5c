SPECIFICATION Spec
CONSTANTS
  Length = 4
  Vals = {1000, 3600000, 7200000, 90000000}
INVARIANTS Lifetimes LastCounts Registered
CHECK_DEADLOCK FALSE
