SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 2
INVARIANTS Restored Off EmitInv
