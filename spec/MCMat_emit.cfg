SPECIFICATION Spec
CONSTANTS MaxDim = 2
          MaxLen = 2
INVARIANTS Represents Emit
CHECK_DEADLOCK FALSE
