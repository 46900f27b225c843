SPECIFICATION Spec
CONSTANTS Levels <- SomeLevels
          MaxAlpha = 3
          MaxBeta = 4
INVARIANTS Sorted Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
