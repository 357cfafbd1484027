SPECIFICATION Spec
CONSTANTS Classes = {"cheb","nol","nor","cheb1","pminf","pinf","minf","pinfU","minfL","ident","val","log","poleP","poleN"}
 FunIds = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30}
 MaxNs = {4, 8, 30, 100, 200}
 RootSets = {}
 RootScale = 4
INVARIANTS Nested DegreeOK Reproduces Idempotent Towers EndsOK DerivOK ClassOK Stops Limit EmitInv
CHECK_DEADLOCK FALSE
