SPECIFICATION Spec
CONSTANTS
  Users <- UsersDots
  Managers <- Two
  KeyOf <- KeysTwo
  Coding = "image"
  Check = "full"
  MaxIssue = 6
INVARIANTS OnlyAuthentic ReadsItsId RefreshChecks Unique OneToOne Owned
PROPERTIES DestroyExact
CHECK_DEADLOCK FALSE
