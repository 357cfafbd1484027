SPECIFICATION Spec
CONSTANTS Leaves = {"UM","MI","D2"}
 Unary <- Few
 Binary = {"max","mix:1,1"}
 MaxLeaves = 2
 MaxUnary = 2
 MaxDeg = 3
INVARIANTS TopOK Total EmitInv
CHECK_DEADLOCK FALSE
