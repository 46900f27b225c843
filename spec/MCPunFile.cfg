SPECIFICATION Spec
CONSTANTS MaxOrbitals = 3
          Functions = {1, 2, 4, 5, 6, 10, 11}
INVARIANTS Complete Partial Emit
CHECK_DEADLOCK FALSE
