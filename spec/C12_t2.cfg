SPECIFICATION Spec
CONSTANTS Bases = {"B","C"}
 Un <- UnAll
 UnC <- UnCAll
 Bin <- BinAll
 MaxBuild = 2
 Free = TRUE
INVARIANTS Acyclic AncOK TreeOK ValOK EmitDag
CHECK_DEADLOCK FALSE
