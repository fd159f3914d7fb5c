SPECIFICATION Spec
CONSTANTS
  Chars = {"u", "*", "?", "[", "]", "\\", "^", "p"}
  Len1 = 2
  Mistake = "nodot"
INVARIANTS OwnOnly Apart Unrelated
CHECK_DEADLOCK FALSE
