SPECIFICATION Spec
CONSTANTS Classes = {"cheb","nol","nor","cheb1"}
 FunIds = {}
 MaxNs = {100}
 RootSets <- RootsQ
 RootScale = 4
INVARIANTS Nested DegreeOK Reproduces Idempotent Towers EndsOK DerivOK ClassOK Stops Limit EmitInv
CHECK_DEADLOCK FALSE
