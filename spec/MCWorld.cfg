SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANTS Repeatable Alike Emit
CHECK_DEADLOCK FALSE
