SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS LastWins NamesFit Emit
CHECK_DEADLOCK FALSE
