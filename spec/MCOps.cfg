SPECIFICATION Spec
CONSTANTS Vals <- SmallVals
          MaxDim = 2
INVARIANTS Computes Laws
PROPERTIES Unchanged Terminates
CHECK_DEADLOCK FALSE
