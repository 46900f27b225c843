SPECIFICATION Spec
CONSTANTS Lengths = {1, 33, 34, 35, 68, 69, 70}
          MaxWords = 3
          AnyWrap = FALSE
INVARIANTS Readable Emit
CHECK_DEADLOCK FALSE
