SPECIFICATION Spec
CONSTANTS Leaves = {"U01","UM","UN","UP","STEP","SKEW","GAP","C2","CN","D2","D3","DP","ME","MR","MI","MO","MP","MN","H3"}
 MaxLeaves = 2
 Ops = {"mul","div"}
INVARIANTS Lattice Commute Sign Agree Recip Ends AtomMasses EmitInv
CHECK_DEADLOCK FALSE
