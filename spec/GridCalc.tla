------------------------------ MODULE GridCalc ------------------------------
(* C03, C05.  Stack calculator over independent leaves with laws on the      *)
(* quarter grid: maxima, minima (also with plain numbers), conditioning on   *)
(* open intervals, mixtures, negation, |.|.                                  *)
EXTENDS GridLaw, Emit
CONSTANTS Leaves, Unary, Binary, MaxLeaves, MaxUnary, MaxDeg
VARIABLE stack, un
NLeaves == LET RECURSIVE C(_)
               C(j) == IF j = 0 THEN 0 ELSE stack[j].n + C(j - 1)
           IN C(Len(stack))
Top(k) == stack[Len(stack) - k]
INF == 10000
(* t = <<op, c>> or <<op, a, b>>, numbers in quarter units *)
Un(t, A) ==
  CASE t[1] \in {"maxc", "rmaxc"} -> GMax(A, GConst(t[2]))
    [] t[1] \in {"minc", "rminc"} -> GMin(A, GConst(t[2]))
    [] t[1] = "neg" -> GNeg(A)
    [] t[1] = "abs" -> GAbs(A)
    [] t[1] \in {"addc", "raddc"} -> GShift(A, t[2])
    [] t[1] = "subc" -> GShift(A, -t[2])
    [] t[1] = "rsubc" -> GShift(GNeg(A), t[2])
    [] t[1] = "gt" -> GCond(A, t[2], INF)
    [] t[1] = "lt" -> GCond(A, -INF, t[2])
    [] t[1] = "bt" -> GCond(A, t[2], t[3])
UnOK(t, A) ==
  CASE t[1] = "gt" -> GCondOK(A, t[2], INF)
    [] t[1] = "lt" -> GCondOK(A, -INF, t[2])
    [] t[1] = "bt" -> GCondOK(A, t[2], t[3])
    [] OTHER -> TRUE
Bi(o, A, B) == CASE o = "max" -> GMax(A, B) [] o = "min" -> GMin(A, B)
                 [] o = "mix:1,3" -> GMix(A, B, 1, 3) [] o = "mix:2,1" -> GMix(A, B, 2, 1) [] o = "mix:1,1" -> GMix(A, B, 1, 1)
QS(c) == LET g == RNorm(c, 4) IN IF g[2] = 1 THEN ToString(g[1]) ELSE ToString(g[1]) \o "/" \o ToString(g[2])
Tok(t) == IF Len(t) = 1 THEN t[1] ELSE IF Len(t) = 2 THEN t[1] \o ":" \o QS(t[2]) ELSE t[1] \o ":" \o QS(t[2]) \o "," \o QS(t[3])

Init == stack = <<>> /\ un = 0
Push(n) == /\ NLeaves < MaxLeaves
           /\ stack' = Append(stack, [e |-> <<n>>, G |-> GOf(LeafLaw(n)), n |-> 1])
           /\ UNCHANGED un
DoUn(t) == /\ stack # <<>> /\ un < MaxUnary /\ UnOK(t, Top(0).G)
           /\ stack' = [stack EXCEPT ![Len(stack)] = [e |-> Top(0).e \o <<Tok(t)>>, G |-> Un(t, Top(0).G), n |-> Top(0).n]]
           /\ un' = un + 1
DoBi(o) == /\ Len(stack) >= 2 /\ Top(1).G.deg + Top(0).G.deg <= MaxDeg
           /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                  [e |-> Top(1).e \o Top(0).e \o <<o>>, G |-> Bi(o, Top(1).G, Top(0).G), n |-> Top(1).n + Top(0).n])
           /\ UNCHANGED un
Next == (\E n \in Leaves : Push(n)) \/ (\E t \in Unary : DoUn(t)) \/ (\E o \in Binary : DoBi(o))
Spec == Init /\ [][Next]_<<stack, un>>

TopOK == stack = <<>> \/ GOK(Top(0).G)
Algebra == Len(stack) < 2 \/
  LET A == Top(1).G  B == Top(0).G  M == GMax(A, B)  N == GMin(A, B) IN
  /\ GSame(M, GMax(B, A)) /\ GSame(N, GMin(B, A))
  /\ GSame(N, GNeg(GMax(GNeg(A), GNeg(B))))
  /\ \A t \in MinI(A.lo, B.lo)..MaxI(GHi(A), GHi(B)) :           \* F_max + F_min = F_A + F_B
        RAdd(GF(M, t), GF(N, t)) = RAdd(GF(A, t), GF(B, t))
  /\ A.deg + B.deg <= 3 => RAdd(GMean(M), GMean(N)) = RAdd(GMean(A), GMean(B))
(* law of total probability at a cut inside the support *)
Total == stack = <<>> \/
  LET A == Top(0).G  c == A.lo + 2 * ((Len(A.F) - 1) \div 4) IN
  (GCondOK(A, c, INF) /\ GCondOK(A, -INF, c)) =>
     LET U == GCond(A, c, INF)  D == GCond(A, -INF, c)  pu == RSub(R1, GF(A, c))  pd == GL(A, c)
     IN /\ GOK(U) /\ GOK(D)
        /\ \A t \in A.lo..GHi(A) :
             GF(A, t) = RAdd(RAdd(RMul(pu, GF(U, t)), RMul(pd, GF(D, t))),
                             IF t >= c THEN RSub(GF(A, c), GL(A, c)) ELSE R0)
EmitInv == Len(stack) # 1 \/
   IF Top(0).n = 1 /\ un = 0 THEN Emit(EmitLeaf(Top(0).e[1]))
   ELSE Emit([kind |-> "expr", e |-> Top(0).e, obs |-> GObs(Top(0).G)])
=============================================================================
