SPECIFICATION Spec
CONSTANTS Ops = {"add", "mul", "div", "max", "min", "chain", "nd"}
 Workers = {1, 2}
 Tasks = 2
 MaxHist = 4
 Sched = FALSE
INVARIANTS OnePool OnlyWhenOn InOrder NothingLost EmitInv
PROPERTY Ends
CHECK_DEADLOCK FALSE
