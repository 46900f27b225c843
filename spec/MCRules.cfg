SPECIFICATION Spec
CONSTANTS MaxOps = 2
          Big = TRUE
INVARIANTS ReadsBack Refuses Accepts Emit
CHECK_DEADLOCK FALSE
