SPECIFICATION Spec
CONSTANTS Lengths = {1, 2}
          MaxWords = 2
          AnyWrap = TRUE
INVARIANTS Readable Sensitive
CHECK_DEADLOCK FALSE
