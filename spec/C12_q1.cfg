SPECIFICATION Spec
CONSTANTS Bases = {"A","B"}
 Un <- UnAll
 UnC <- UnCAll
 Bin <- BinAll
 MaxBuild = 2
 Free = FALSE
INVARIANTS Acyclic AncOK TreeOK ValOK EmitDag
CHECK_DEADLOCK FALSE
