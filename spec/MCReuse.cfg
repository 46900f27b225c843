SPECIFICATION Spec
CONSTANTS Status <- StatusOf
          MaxLen = 5
          Same = FALSE
INVARIANTS Holds Readable Missing Emit
CHECK_DEADLOCK FALSE
