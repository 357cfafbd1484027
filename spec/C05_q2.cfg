SPECIFICATION Spec
CONSTANTS Leaves <- AllLeaves
 Unary = {}
 Binary = {"mix:1,3","mix:2,1"}
 MaxLeaves = 2
 MaxUnary = 0
 MaxDeg = 3
INVARIANTS TopOK EmitInv
CHECK_DEADLOCK FALSE
