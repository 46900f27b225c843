SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS LastWins NamesFit Emit
CHECK_DEADLOCK FALSE
