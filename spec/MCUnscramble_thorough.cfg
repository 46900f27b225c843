SPECIFICATION Spec
CONSTANTS MaxAtoms = 6
          MaxWidth = 2
          Wild = FALSE
INVARIANTS Permutation NoEndlessSearch Correct Refuses Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
