SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 SumLeaves = {"U01","UM","UN","STEP","SKEW","GAP","C2","D2","D3","DP","ME","MR","MI","MJ","MO","TR"}
 SumMax = 9
 MulLeaves = {"V01","V02","V12","VN","VA0","VAN","VD","VDM","VC"}
 MulMax = 6
 OrdLeaves = {"U01","C2","D2","UM","UN","ME"}
 OrdMax = 9
INVARIANTS Bracketing AddInv MulInv OrdInv EmitInv
