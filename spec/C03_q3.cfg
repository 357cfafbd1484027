SPECIFICATION Spec
CONSTANTS Leaves = {"UM","D3","MI","MO"}
 Unary = {}
 Binary = {"max","min"}
 MaxLeaves = 3
 MaxUnary = 0
 MaxDeg = 4
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
