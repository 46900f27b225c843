SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
  Texts = {"a", "b", "-ab", "-"}
INVARIANTS Accepted_ Other Missed Forward Everywhere OnlyThere Refused Emit
CHECK_DEADLOCK FALSE
