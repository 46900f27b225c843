SPECIFICATION Spec
CONSTANTS
  Clients = 3
  Len_ = 3
INVARIANT Independent
INVARIANT Between
INVARIANT Emit
CHECK_DEADLOCK FALSE
