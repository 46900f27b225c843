SPECIFICATION Spec
CONSTANTS Lengths = {1, 33, 34, 35, 66, 67, 68, 69, 70, 71, 80}
          MaxWords = 2
          AnyWrap = FALSE
INVARIANTS Readable Emit
CHECK_DEADLOCK FALSE
