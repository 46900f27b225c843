SPECIFICATION Spec
CONSTANTS MaxSegs = 2
          EmitSegs = 2
VIEW TheState
INVARIANTS Accepts Rejects Versions OnlyHelp Dangling Defaults Emit
CHECK_DEADLOCK FALSE
