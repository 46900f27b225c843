SPECIFICATION Spec
CONSTANTS MaxDim = 2
          MaxLen = 3
VIEW View
INVARIANTS Represents Involutions Legible
PROPERTY Independent
CHECK_DEADLOCK FALSE
