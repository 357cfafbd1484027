SPECIFICATION Spec
CONSTANTS Leaves = {"U01","UM","UN","UP","STEP","SKEW","GAP","C2","D2","D3","ME","MR","MI","MO","MJ","UW","DF","H3"}
 MaxLeaves = 2
 FirstLeaves = {}
INVARIANTS TopOK Algebra EmitInv
CHECK_DEADLOCK FALSE
