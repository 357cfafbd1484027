SPECIFICATION Spec
CONSTANTS Contexts <- CtxAll
 Un <- UnAll
 Bin <- BinAll
 Ask <- AskAll
 Ask2 <- Ask2All
 MaxOps = 3
 MaxLen = 12
 Seeds = 700
INVARIANTS HeldOK HeldDown AnswerOK EmitInv
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
