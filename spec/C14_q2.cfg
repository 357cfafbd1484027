SPECIFICATION Spec
CONSTANTS Contexts <- CtxAll
 Un <- UnAll
 Bin <- BinAll
 Ask <- AskAll
 Ask2 <- Ask2All
 MaxOps = 2
 MaxLen = 10
 Seeds = 80
INVARIANTS HeldOK HeldDown AnswerOK EmitInv
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
