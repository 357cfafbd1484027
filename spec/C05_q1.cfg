SPECIFICATION Spec
CONSTANTS Leaves <- AllLeaves
 Unary <- CutOps
 Binary = {}
 MaxLeaves = 1
 MaxUnary = 1
 MaxDeg = 3
INVARIANTS TopOK Total EmitInv
CHECK_DEADLOCK FALSE
