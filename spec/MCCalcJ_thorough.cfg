SPECIFICATION Spec
CONSTANTS MaxSegs = 3
          EmitSegs = 3
VIEW TheState
INVARIANTS Accepts Rejects Versions OnlyHelp Dangling Defaults Emit
CHECK_DEADLOCK FALSE
