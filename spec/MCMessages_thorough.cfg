SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Top = 2
INVARIANTS SameText EveryLevel AllAtTop SilentBelow Emit
CHECK_DEADLOCK FALSE
