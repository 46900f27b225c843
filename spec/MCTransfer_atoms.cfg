SPECIFICATION Spec
CONSTANTS Base = 10000
          Family = "atoms"
          MaxMon = 2
INVARIANTS OrderIrrelevant Undone Decision Symmetries Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
