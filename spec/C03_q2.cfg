SPECIFICATION Spec
CONSTANTS Leaves <- AllLeaves
 Unary <- NumOps
 Binary = {}
 MaxLeaves = 1
 MaxUnary = 1
 MaxDeg = 3
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
