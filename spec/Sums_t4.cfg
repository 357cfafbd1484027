SPECIFICATION Spec
CONSTANTS Leaves = {"U01","STEP","MR"}
 MaxLeaves = 4
 FirstLeaves = {"U01","STEP","MR"}
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
