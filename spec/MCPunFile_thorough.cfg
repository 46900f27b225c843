SPECIFICATION Spec
CONSTANTS MaxOrbitals = 7
          Functions = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 15, 16, 20, 21}
INVARIANTS Complete Partial Emit
CHECK_DEADLOCK FALSE
