SPECIFICATION Spec
CONSTANTS Bases = {"A","D"}
 Un <- UnMid
 UnC <- UnCFew
 Bin <- BinMid
 MaxBuild = 3
 Free = TRUE
INVARIANTS Acyclic AncOK TreeOK EmitDag
CHECK_DEADLOCK FALSE
