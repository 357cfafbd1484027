SPECIFICATION Spec
CONSTANTS Leaves <- AllLeaves
 Unary = {}
 Binary = {"max","min"}
 MaxLeaves = 2
 MaxUnary = 0
 MaxDeg = 3
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
