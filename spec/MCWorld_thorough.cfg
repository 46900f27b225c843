SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS Repeatable Alike Emit
CHECK_DEADLOCK FALSE
