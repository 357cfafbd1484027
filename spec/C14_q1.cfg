SPECIFICATION Spec
CONSTANTS Contexts <- CtxAll
 Un <- UnAll
 Bin <- BinAll
 Ask <- AskAll
 Ask2 <- Ask2All
 MaxOps = 1
 MaxLen = 1
 Seeds = 0
INVARIANTS HeldOK HeldDown AnswerOK EmitInv
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
