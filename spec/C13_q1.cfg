SPECIFICATION Spec
CONSTANTS Bases = {"B","D"}
 Un <- UnFew
 UnC <- UnCFew
 Bin <- BinFew
 MaxBuild = 3
 Free = FALSE
INVARIANTS Acyclic AncOK TreeOK ValOK EmitDag
CHECK_DEADLOCK FALSE
