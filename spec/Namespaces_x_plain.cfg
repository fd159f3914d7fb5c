SPECIFICATION Spec
CONSTANTS
  Chars = {"u", "*", "?", "[", "]", "\\", "^", "p"}
  Len1 = 2
  Mistake = "plain"
INVARIANTS OwnOnly Apart Unrelated
CHECK_DEADLOCK FALSE
