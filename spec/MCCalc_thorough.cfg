SPECIFICATION Spec
CONSTANTS MaxDev = 3
          EmitDev = 3
INVARIANTS Confluent Decision OwnOrbitals Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
