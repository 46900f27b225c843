SPECIFICATION Spec
CONSTANTS MaxLen = 5
          EmitLen = 4
          Defaults = TRUE
INVARIANTS Machine LastWins OrderFree HelpNeutral Keeps Sound Required Emit
CHECK_DEADLOCK FALSE
VIEW TheLine
