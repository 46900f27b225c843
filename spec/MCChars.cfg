SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 32, 9, 47}
          MaxLen = 4
          OccAlphabet = {97, 98, 47}
          MaxOcc = 2
INVARIANTS Exact Unique Emit
CHECK_DEADLOCK FALSE
