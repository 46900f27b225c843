SPECIFICATION Spec
CONSTANTS Base = 3
          Bound = 60
INVARIANT Agree
CHECK_DEADLOCK FALSE
