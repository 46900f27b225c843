SPECIFICATION Spec
CONSTANTS MaxLen = 4
          EmitLen = 3
          Defaults = FALSE
INVARIANTS Machine LastWins OrderFree HelpNeutral Keeps Sound Required Emit
CHECK_DEADLOCK FALSE
VIEW TheLine
