SPECIFICATION Spec
CONSTANTS Coords <- Cross
          Dims = 3
          MaxOne = 1
          MaxOther = 2
          MinDigits = 3
          MaxDigits = 4
INVARIANTS Matched Rounding Emit
CHECK_DEADLOCK FALSE
