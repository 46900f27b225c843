SPECIFICATION Spec
CONSTANTS MaxAtoms = 3
          MaxWidth = 1
          Wild = TRUE
INVARIANTS Permutation NoEndlessSearch Correct Refuses Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
