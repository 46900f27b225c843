SPECIFICATION Spec
CONSTANTS
  Clients = 3
  Len_ = 4
INVARIANT Independent
INVARIANT Between
INVARIANT Emit
CHECK_DEADLOCK FALSE
