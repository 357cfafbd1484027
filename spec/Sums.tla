-------------------------------- MODULE Sums --------------------------------
(* C01.  A stack calculator over independent leaves: push a leaf, or replace *)
(* the two topmost entries by their sum or difference.  Each entry carries   *)
(* the expression (reverse Polish tokens) and its exact law.  Each push is a *)
(* fresh variable, so all operands are independent.                          *)
EXTENDS Catalog, Emit
CONSTANTS Leaves,      \* names of leaf laws
          MaxLeaves,   \* leaves per expression
          FirstLeaves  \* leaves allowed once the expression has more than two leaves
VARIABLE stack
NLeaves(s) == LET RECURSIVE C(_)
                  C(j) == IF j = 0 THEN 0 ELSE s[j].n + C(j - 1)
              IN C(Len(s))
Init == stack = <<>>
Push(n) == /\ NLeaves(stack) < MaxLeaves
           /\ MaxLeaves = 2 \/ n \in FirstLeaves
           /\ stack' = Append(stack, [e |-> <<n>>, L |-> LeafLaw(n), n |-> 1])
Top(k) == stack[Len(stack) - k]
Apply(op) == /\ Len(stack) >= 2
             /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                   [e |-> Top(1).e \o Top(0).e \o <<op>>,
                    L |-> IF op = "add" THEN SumLaw(Top(1).L, Top(0).L) ELSE DiffLaw(Top(1).L, Top(0).L),
                    n |-> Top(1).n + Top(0).n])
Next == (\E n \in Leaves : Push(n)) \/ (\E op \in {"add", "sub"} : Apply(op))
Spec == Init /\ [][Next]_stack

TopOK == stack = <<>> \/ LET L == Top(0).L IN IsLaw(L) /\ Monotone(L) /\ EndsOK(L)
(* algebra that must hold whenever two entries are available *)
Algebra == Len(stack) < 2 \/
   LET A == Top(1).L  B == Top(0).L  S == SumLaw(A, B)  D == DiffLaw(A, B) IN
   /\ SameLaw(S, SumLaw(B, A))
   /\ SameLaw(D, NegLaw(DiffLaw(B, A)))
   /\ SameLaw(D, SumLaw(A, NegLaw(B)))
   /\ Mean(S) = RAdd(Mean(A), Mean(B)) /\ Mean(D) = RSub(Mean(A), Mean(B))
   /\ Var(S) = RAdd(Var(A), Var(B)) /\ Var(D) = Var(S)
   /\ Atoms(S) = {a + b : a \in Atoms(A), b \in Atoms(B)}
EmitInv == Len(stack) # 1 \/
   IF Top(0).n = 1 THEN Emit(EmitLeaf(Top(0).e[1]))
   ELSE (MaxLeaves > 2 /\ Top(0).n = 2) \/ Emit([kind |-> "expr", e |-> Top(0).e, obs |-> Obs(Top(0).L)])
=============================================================================
