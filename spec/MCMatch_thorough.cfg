SPECIFICATION Spec
CONSTANTS Coords <- More
          Dims = 1
          MaxOne = 2
          MaxOther = 2
          MinDigits = 0
          MaxDigits = 4
INVARIANTS Matched Rounding Emit
CHECK_DEADLOCK FALSE
