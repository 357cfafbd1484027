SPECIFICATION Spec
CONSTANTS Errs = {0, 1, 2, 3, 8}
 Vals = {1, 4, 5}
 Pars = {1, 2, 3, 4, 5, 6}
 MaxLen = 3
 Walks = 150
 WalkLen = 9
INVARIANTS StopOK NoEarlyStop GoodOK BestOK EmitInv
CHECK_DEADLOCK FALSE
