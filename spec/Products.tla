----------------------------- MODULE Products -----------------------------
(* C02.  Stack calculator over independent lattice laws: products with       *)
(* discrete laws (results are lattice laws again and may be used further),   *)
(* sums, negation, and a final product or quotient of two lattice laws.      *)
EXTENDS LogLaw, Emit
CONSTANTS Leaves, MaxLeaves, Ops
VARIABLE stack
Top(k) == stack[Len(stack) - k]
NLeaves == LET RECURSIVE C(_)
               C(j) == IF j = 0 THEN 0 ELSE stack[j].n + C(j - 1)
           IN C(Len(stack))
Init == stack = <<>>
Done == Len(stack) = 1 /\ stack[1].op # ""
Push(n) == /\ ~Done /\ NLeaves < MaxLeaves
           /\ stack' = Append(stack, [e |-> <<n>>, A |-> LeafLaw(n), B |-> LeafLaw("C0"), op |-> "", n |-> 1])
Two == Len(stack) >= 2 /\ ~Done
Pop2(x) == stack' = Append(SubSeq(stack, 1, Len(stack) - 2), x)
Rec(o, A, B, op) == [e |-> Top(1).e \o Top(0).e \o <<o>>, A |-> A, B |-> B, op |-> op, n |-> Top(1).n + Top(0).n]
NoZero(B) == ZeroMass(B) = R0
(* intermediate products with a discrete law *)
MulD == /\ Two /\ "mulD" \in Ops /\ (OnlyAtoms(Top(0).A) \/ OnlyAtoms(Top(1).A)) /\ NLeaves < MaxLeaves
        /\ Pop2(Rec("mul", IF OnlyAtoms(Top(0).A) THEN MulAtoms(Top(1).A, Top(0).A) ELSE MulAtoms(Top(0).A, Top(1).A), Top(0).B, ""))
AddD == /\ Two /\ "addD" \in Ops /\ (OnlyAtoms(Top(0).A) \/ OnlyAtoms(Top(1).A)) /\ NLeaves < MaxLeaves
        /\ Pop2(Rec("add", SumLaw(Top(1).A, Top(0).A), Top(0).B, ""))
Fin(o) == /\ Two /\ Len(stack) = 2 /\ o \in Ops /\ (o = "div" => NoZero(Top(0).A))
          /\ Pop2(Rec(o, Top(1).A, Top(0).A, o))
Next == (\E n \in Leaves : Push(n)) \/ MulD \/ AddD \/ Fin("mul") \/ Fin("div")
Spec == Init /\ [][Next]_stack

(* evaluation points *)
HMax(A) == MaxI(AbsI(LoEnd(A)), AbsI(HiEnd(A)))
Base == {<<0,1>>, <<1,8>>, <<1,3>>, <<1,2>>, <<3,4>>, <<1,1>>, <<4,3>>, <<3,2>>, <<2,1>>, <<3,1>>, <<5,1>>, <<7,1>>, <<9,1>>}
Sym(S) == S \cup {RNeg(q) : q \in S}
MulPts(A, B) == LET h == HMax(A) * HMax(B)
                IN {q \in Sym(Base \cup {RI(h), RI(h + 1), RNorm(2 * h - 1, 2)}) : RLe(RAbs(q), RI(h + 1))} \cup AtomsMul(A, B)
DivPts(A, B) == Sym(Base \cup {<<20,1>>}) \cup AtomsDiv(A, B)
Pts(s) == IF s.op = "mul" THEN MulPts(s.A, s.B) ELSE DivPts(s.A, s.B)
FF(s, z) == IF s.op = "mul" THEN MulF(s.A, s.B, z) ELSE DivF(s.A, s.B, z)
At(s, z) == IF s.op = "mul" THEN MulAtomAt(s.A, s.B, z) ELSE DivAtomAt(s.A, s.B, z)

(* model-level theorems *)
Lattice == \A j \in 1..Len(stack) : IsLaw(stack[j].A)
Commute == Done /\ stack[1].op = "mul" =>
   \A z \in MulPts(stack[1].A, stack[1].B) : MulF(stack[1].A, stack[1].B, z) = MulF(stack[1].B, stack[1].A, z)
(* -X * Y is the negative of X * Y *)
Sign == Done => LET s == stack[1]  n == [s EXCEPT !.A = NegLaw(s.A)] IN
   \A z \in Pts(s) : PAdd(FF(s, z), FF(n, RNeg(z))) = PV(RAdd(R1, At(s, z)))
(* product with a discrete law: the lattice calculus agrees *)
Agree == Done /\ stack[1].op = "mul" /\ OnlyAtoms(stack[1].B) =>
   LET L == MulAtoms(stack[1].A, stack[1].B) IN
   IsLaw(L) /\ \A z \in {q \in MulPts(stack[1].A, stack[1].B) : q[2] \in {1, 2}} :
      MulF(stack[1].A, stack[1].B, z) = PV(Cdf(L, (2 * z[1]) \div z[2]))
(* X/Y <= z iff Y/X >= 1/z for positive X, Y, z *)
Recip == Done /\ stack[1].op = "div" =>
   LET s == stack[1] IN
   (\A k \in Keys(s.A) \cup Keys(s.B) : k[2] >= 0 /\ k # <<0, 0>>) =>
      \A z \in {q \in Base : q # R0} : PAdd(DivF(s.A, s.B, z), DivF(s.B, s.A, RInv(z))) = PV(RAdd(R1, DivAtomAt(s.A, s.B, z)))
Ends == Done /\ stack[1].op = "mul" =>
   LET h == RI(HMax(stack[1].A) * HMax(stack[1].B)) IN
   MulF(stack[1].A, stack[1].B, h) = PV(R1) /\ MulF(stack[1].A, stack[1].B, RSub(RNeg(h), R1)) = PV(R0)
AtomMasses == Done => \A z \in Pts(stack[1]) : LET s == stack[1] IN
   RLe(R0, At(s, z)) /\ (DOMAIN FF(s, z).f = {} => RLe(At(s, z), FF(s, z).r))

RECURSIVE SortQ(_)
SortQ(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A w \in S : RLe(y, w) IN <<x>> \o SortQ(S \ {x})
PSeq(v) == <<v.r>> \o LET P == SetToSeq2(DOMAIN v.f) IN [n \in 1..Len(P) |-> <<P[n], v.f[P[n]][1], v.f[P[n]][2]>>]
EmitInv ==
  /\ (Len(stack) = 1 /\ stack[1].n = 1) => Emit(EmitLeaf(stack[1].e[1]))
  /\ Done => LET s == stack[1]  P == SortQ(Pts(s)) IN
     Emit([kind |-> "expr", e |-> s.e, op |-> s.op,
           pts |-> [n \in 1..Len(P) |-> <<P[n], PSeq(FF(s, P[n])), At(s, P[n])>>],
           mean |-> IF s.op = "mul" THEN PSeq(PV(RMul(Mean(s.A), Mean(s.B))))
                    ELSE IF AwayFromZero(s.B) THEN PSeq(PScale(InvMean(s.B), Mean(s.A))) ELSE <<>>,
           m2 |-> IF s.op = "mul" THEN <<RMul(M2(s.A), M2(s.B))>>
                  ELSE IF AwayFromZero(s.B) THEN <<RMul(M2(s.A), InvM2(s.B))>> ELSE <<>>])
=============================================================================
