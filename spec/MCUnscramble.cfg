SPECIFICATION Spec
CONSTANTS MaxAtoms = 5
          MaxWidth = 3
          Wild = FALSE
INVARIANTS Permutation NoEndlessSearch Correct Refuses Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
