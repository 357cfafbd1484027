------------------------------ MODULE Discrete ------------------------------
(* C10.  Stack calculator over independent finite discrete variables.  Every *)
(* push is a fresh variable; unary and binary operations replace the top of  *)
(* the stack.  The law is computed by enumerating outcomes.                  *)
EXTENDS FinLaw, Emit
CONSTANTS Leaves, Unary, Binary, MaxLeaves, MaxUnary, MaxVals
VARIABLE stack, un

LeafF(n) ==
  CASE n = "A" -> {<<<<0,1>>, 1>>, <<<<1,1>>, 1>>}
    [] n = "B" -> {<<<<-1,1>>, 1>>, <<<<2,1>>, 2>>}
    [] n = "C" -> {<<<<-1,1>>, 1>>, <<<<0,1>>, 2>>, <<<<1,1>>, 1>>}
    [] n = "D" -> {<<<<1,1>>, 1>>, <<<<2,1>>, 1>>, <<<<3,1>>, 3>>}
    [] n = "E" -> {<<<<1,2>>, 1>>, <<<<2,1>>, 3>>}
    [] n = "G" -> {<<<<-2,1>>, 1>>, <<<<-1,2>>, 2>>}
    [] n = "H" -> {<<<<-3,1>>, 1>>, <<<<-1,1>>, 1>>, <<<<1,1>>, 1>>, <<<<3,1>>, 2>>}
    [] n = "K" -> {<<<<3,1>>, 1>>}
    [] n = "Z" -> {<<<<0,1>>, 1>>}
    [] n = "M" -> {<<<<-1,1>>, 1>>}

(* unary operations: name, argument(s) *)
IV(s) == s      \* arguments are given as rationals in the unary descriptor
Un(t, L) ==     \* t = <<op, a, b>>
  CASE t[1] = "neg"  -> Image(L, LAMBDA v : RNeg(v))
    [] t[1] = "abs"  -> Image(L, LAMBDA v : RAbs(v))
    [] t[1] = "sqr"  -> Image(L, LAMBDA v : RSq(v))
    [] t[1] = "inv"  -> Image(L, LAMBDA v : RInv(v))
    [] t[1] = "sign" -> Image(L, LAMBDA v : RI(RSgn(v)))
    [] t[1] \in {"addc", "raddc"} -> Image(L, LAMBDA v : RAdd(v, t[2]))
    [] t[1] = "subc"  -> Image(L, LAMBDA v : RSub(v, t[2]))
    [] t[1] = "rsubc" -> Image(L, LAMBDA v : RSub(t[2], v))
    [] t[1] \in {"mulc", "rmulc"} -> Image(L, LAMBDA v : RMul(v, t[2]))
    [] t[1] = "divc"  -> Image(L, LAMBDA v : RDiv(v, t[2]))
    [] t[1] = "rdivc" -> Image(L, LAMBDA v : RDiv(t[2], v))
    [] t[1] \in {"minc", "rminc"}  -> Image(L, LAMBDA v : RMin(v, t[2]))
    [] t[1] \in {"maxc", "rmaxc"}  -> Image(L, LAMBDA v : RMax(v, t[2]))
    [] t[1] = "gt"  -> FRestrict(L, {v \in Vals(L) : RLt(t[2], v)})
    [] t[1] = "lt"  -> FRestrict(L, {v \in Vals(L) : RLt(v, t[2])})
    [] t[1] = "bt"  -> FRestrict(L, {v \in Vals(L) : RLt(t[2], v) /\ RLt(v, t[3])})
UnOK(t, L) ==
  CASE t[1] \in {"inv", "rdivc"} -> <<0,1>> \notin Vals(L)
    [] t[1] = "gt" -> \E v \in Vals(L) : RLt(t[2], v)
    [] t[1] = "lt" -> \E v \in Vals(L) : RLt(v, t[2])
    [] t[1] = "bt" -> \E v \in Vals(L) : RLt(t[2], v) /\ RLt(v, t[3])
    [] OTHER -> TRUE
Bi(o, A, B) ==
  CASE o = "add" -> Image2(A, B, LAMBDA x, y : RAdd(x, y))
    [] o = "sub" -> Image2(A, B, LAMBDA x, y : RSub(x, y))
    [] o = "mul" -> Image2(A, B, LAMBDA x, y : RMul(x, y))
    [] o = "div" -> Image2(A, B, LAMBDA x, y : RDiv(x, y))
    [] o = "min" -> Image2(A, B, LAMBDA x, y : RMin(x, y))
    [] o = "max" -> Image2(A, B, LAMBDA x, y : RMax(x, y))
    [] o = "mix" -> FMix(A, B, 1, 3)
BiOK(o, A, B) == o = "div" => <<0,1>> \notin Vals(B)

RS(r) == IF r[2] = 1 THEN ToString(r[1]) ELSE ToString(r[1]) \o "/" \o ToString(r[2])
Tok(t) == IF Len(t) = 1 THEN t[1]
          ELSE IF Len(t) = 2 THEN t[1] \o ":" \o RS(t[2])
          ELSE t[1] \o ":" \o RS(t[2]) \o "," \o RS(t[3])

NLeaves == LET RECURSIVE C(_)
               C(j) == IF j = 0 THEN 0 ELSE stack[j].n + C(j - 1)
           IN C(Len(stack))
Top(k) == stack[Len(stack) - k]
Init == stack = <<>> /\ un = 0
Push(n) == /\ NLeaves < MaxLeaves
           /\ stack' = Append(stack, [e |-> <<n>>, L |-> FLaw(LeafF(n)), n |-> 1])
           /\ UNCHANGED un
DoUn(t) == /\ stack # <<>> /\ un < MaxUnary /\ UnOK(t, Top(0).L)
           /\ stack' = [stack EXCEPT ![Len(stack)] = [e |-> Top(0).e \o <<Tok(t)>>, L |-> Un(t, Top(0).L), n |-> Top(0).n]]
           /\ un' = un + 1
DoBi(o) == /\ Len(stack) >= 2 /\ BiOK(o, Top(1).L, Top(0).L)
           /\ Cardinality(Vals(Top(1).L)) * Cardinality(Vals(Top(0).L)) <= MaxVals
           /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2),
                  [e |-> Top(1).e \o Top(0).e \o <<o>>, L |-> Bi(o, Top(1).L, Top(0).L), n |-> Top(1).n + Top(0).n])
           /\ UNCHANGED un
Step == (\E n \in Leaves : Push(n)) \/ (\E t \in Unary : DoUn(t)) \/ (\E o \in Binary : DoBi(o))
(* scope bound: keeps exact arithmetic within TLC's integers *)
LcmDen(L) == LET RECURSIVE F(_)
                 F(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE  r == F(S \ {x})
                                               IN IF r > 10000 THEN r ELSE x[2] * (r \div GcdN(x[2], r))
             IN F(Vals(L))
Small(L) == LcmDen(L) <= 144 /\ L.W <= 2048 /\ \A v \in Vals(L) : AbsI(v[1]) <= 64 /\ v[2] <= 16
TopSmall == stack' # <<>> => Small(stack'[Len(stack')].L)
Next == Step /\ TopSmall
Spec == Init /\ [][Next]_<<stack, un>>

LawsOK == \A k \in 1..Len(stack) : FIsLaw(stack[k].L)
Algebra == Len(stack) < 2 \/
  LET A == Top(1).L  B == Top(0).L IN
  /\ Bi("add", A, B) = Bi("add", B, A)
  /\ Bi("mul", A, B) = Bi("mul", B, A)
  /\ Bi("sub", A, B) = Un(<<"neg">>, Bi("sub", B, A))
  /\ Bi("max", A, B) = Un(<<"neg">>, Bi("min", Un(<<"neg">>, A), Un(<<"neg">>, B)))
  /\ FMean(Bi("add", A, B)) = RAdd(FMean(A), FMean(B))
  /\ FVar(Bi("sub", A, B)) = RAdd(FVar(A), FVar(B))
  /\ FMean(Bi("mul", A, B)) = RMul(FMean(A), FMean(B))
  /\ RAdd(FMean(Bi("max", A, B)), FMean(Bi("min", A, B))) = RAdd(FMean(A), FMean(B))
  /\ BiOK("div", A, B) => Bi("div", A, B) = Bi("mul", A, Un(<<"inv">>, B))
EmitInv == Len(stack) # 1 \/ Emit([e |-> Top(0).e, obs |-> FObs(Top(0).L)])
=============================================================================
