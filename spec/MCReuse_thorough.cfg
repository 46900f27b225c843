SPECIFICATION Spec
CONSTANTS Status <- StatusOf
          MaxLen = 6
          Same = FALSE
INVARIANTS Holds Readable Missing Emit
CHECK_DEADLOCK FALSE
