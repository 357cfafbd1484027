SPECIFICATION Spec
CONSTANTS Leaves = {"U01","UM","STEP","GAP","D2","ME","MI","MJ"}
 MaxLeaves = 3
 FirstLeaves = {"U01","UM","STEP","GAP","D2","ME","MI","MJ"}
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
