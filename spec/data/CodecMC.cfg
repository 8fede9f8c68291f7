SPECIFICATION Spec
CONSTANTS
  Base = 3
  H = 2
  W = 2
  MaxLen = 4
INVARIANTS RoundTrip Truncated Counted Fixed
CHECK_DEADLOCK FALSE
