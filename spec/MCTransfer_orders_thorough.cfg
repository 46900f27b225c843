SPECIFICATION Spec
CONSTANTS Base = 10000
          Family = "orders"
          MaxMon = 3
INVARIANTS OrderIrrelevant Undone Decision Symmetries Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
