SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxLen = 2
VIEW View
INVARIANTS Represents Involutions Legible
PROPERTY Independent
CHECK_DEADLOCK FALSE
