SPECIFICATION Spec
CONSTANTS Leaves = {"U01","STEP","D2","MI"}
 MaxLeaves = 3
 FirstLeaves = {"U01","STEP","D2","MI"}
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
