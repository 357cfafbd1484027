SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 SumLeaves = {"U01","UM","UN","STEP","GAP","C2","D2","D3","ME","MO"}
 SumMax = 7
 MulLeaves = {"V01","V02","V12","V14","VM1","VM2","VN","VS","VG","VA0","VA2","VAN","VD","VDM","VC"}
 MulMax = 5
 OrdLeaves = {"U01","UM","UN","STEP","GAP","C2","D2","D3","ME","MO"}
 OrdMax = 6
INVARIANTS Bracketing AddInv MulInv OrdInv EmitInv
