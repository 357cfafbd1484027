SPECIFICATION Spec
CONSTANTS Ops = {"a"}
 Workers = {1, 2, 3}
 Tasks = 5
 MaxHist = 2
 Sched = TRUE
INVARIANTS OnePool OnlyWhenOn InOrder NothingLost EmitInv
PROPERTY Ends
CHECK_DEADLOCK FALSE
