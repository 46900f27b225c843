SPECIFICATION Spec
CONSTANTS NumAlphabet = {"-", ".", "e", "0", "1", "2"}
          PathAlphabet = {"/", ".", "a", " "}
          MaxNum = 7
          MaxPath = 8
INVARIANTS Numbers Paths
CHECK_DEADLOCK FALSE
