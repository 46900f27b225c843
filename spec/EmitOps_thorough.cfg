SPECIFICATION Spec
CONSTANTS MaxDim = 4
          MaxShelf = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
