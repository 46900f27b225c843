SPECIFICATION Spec
CONSTANTS Alphabet = {97, 98, 32, 9, 47}
          MaxLen = 5
          OccAlphabet = {97, 32, 47}
          MaxOcc = 3
INVARIANTS Exact Unique Emit
CHECK_DEADLOCK FALSE
