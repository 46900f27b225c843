SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxShelf = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
