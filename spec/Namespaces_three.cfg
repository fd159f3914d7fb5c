SPECIFICATION Spec
CONSTANTS
  Chars = {"u", "*", "?", "[", "]", "\\", "^", "p"}
  Len1 = 3
  Mistake = ""
INVARIANTS OwnOnly Apart Unrelated
CHECK_DEADLOCK FALSE
