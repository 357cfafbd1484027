SPECIFICATION Spec
CONSTANTS Bases = {"A","C"}
 Un <- UnFew
 UnC <- UnCFew
 Bin <- BinFew
 MaxBuild = 3
 Free = TRUE
INVARIANTS Acyclic AncOK TreeOK EmitDag
CHECK_DEADLOCK FALSE
