SPECIFICATION Spec
CONSTANTS NumAlphabet = {"-", ".", "e", "0", "1", "2"}
          PathAlphabet = {"/", ".", "a", " "}
          MaxNum = 6
          MaxPath = 6
INVARIANTS Numbers Paths
CHECK_DEADLOCK FALSE
