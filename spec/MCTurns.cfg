SPECIFICATION Spec
CONSTANTS
  Clients = 2
  Len_ = 6
INVARIANT Independent
INVARIANT Between
INVARIANT Emit
CHECK_DEADLOCK FALSE
