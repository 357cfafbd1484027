SPECIFICATION Spec
CONSTANTS Routines = {"fejer", "vector", "clenshaw"}
 Funs = {1,2,3,4,5,6,7,8,9,10,11,12,13}
 Halves <- HalfSet
 ParSet = {1,2,3,4,5,6}
 MaxNs = {129, 1000, 1025}
 Drives <- DriveSet
 DrivenLen = 6
INVARIANTS NodeLimit Ended ExactOK Converges ConvOK StopsAtOnce EmitInv
CHECK_DEADLOCK FALSE
