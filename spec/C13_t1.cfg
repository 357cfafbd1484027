SPECIFICATION Spec
CONSTANTS Bases = {"A","C","D"}
 Un <- UnMid
 UnC <- UnCFew
 Bin <- BinMid
 MaxBuild = 3
 Free = FALSE
INVARIANTS Acyclic AncOK TreeOK ValOK EmitDag
CHECK_DEADLOCK FALSE
