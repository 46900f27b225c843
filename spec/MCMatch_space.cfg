SPECIFICATION Spec
CONSTANTS Coords <- Corners
          Dims = 3
          MaxOne = 1
          MaxOther = 3
          MinDigits = 4
          MaxDigits = 4
INVARIANTS Matched Rounding Emit
CHECK_DEADLOCK FALSE
