SPECIFICATION Spec
CONSTANTS Status <- StatusOf
          MaxLen = 5
          Same = TRUE
INVARIANTS Holds Readable Missing Emit
CHECK_DEADLOCK FALSE
