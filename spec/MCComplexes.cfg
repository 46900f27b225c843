SPECIFICATION Spec
CONSTANTS Base = 10000
          MaxLen = 5
          Kinds = {1, 2}
INVARIANTS Independent Untouched Matters Emit
CHECK_DEADLOCK FALSE
