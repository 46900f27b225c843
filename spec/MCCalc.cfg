SPECIFICATION Spec
CONSTANTS MaxDev = 2
          EmitDev = 2
INVARIANTS Confluent Decision OwnOrbitals Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
