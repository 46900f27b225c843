SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Big = TRUE
INVARIANTS ReadsBack Refuses Accepts Emit
CHECK_DEADLOCK FALSE
