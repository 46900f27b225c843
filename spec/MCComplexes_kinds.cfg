SPECIFICATION Spec
CONSTANTS Base = 10000
          MaxLen = 5
          Kinds = {3, 4}
INVARIANTS Independent Untouched Matters Emit
CHECK_DEADLOCK FALSE
