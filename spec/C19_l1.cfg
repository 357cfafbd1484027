SPECIFICATION Spec
CONSTANTS MaxCuts = 2
 FunSet = {"cauchy","cauchy2","laplace","gauss","tail2","tail32","pole12","pole34","ramp"}
INVARIANTS CutsCancel Joined EmitInv
CHECK_DEADLOCK FALSE
