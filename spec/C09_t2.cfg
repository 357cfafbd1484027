SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 SumLeaves = {"MP", "H3", "TM", "TF"}
 SumMax = 4
 MulLeaves = {}
 MulMax = 1
 OrdLeaves = {"STEP","SKEW","GAP","D3","DP","MR","MI","MJ","MO","MP","H3","TR"}
 OrdMax = 5
INVARIANTS Bracketing AddInv MulInv OrdInv EmitInv
