------------------------------ MODULE Closure ------------------------------
(* C08.  A calculator over independent named variables.  Where the result    *)
(* of an operation is again a named law (by the theorems in Families.tla)    *)
(* the machine knows it exactly; every such expression is an obligation on   *)
(* the implementation.  The theorems themselves are checked against the      *)
(* calculus of moments and, for power laws, against exact cdfs.              *)
EXTENDS Families, Emit
CONSTANTS Leaves,      \* leaves that start an expression and serve as operands
          MaxSteps, UnSet, BinSet, SecondLeaves, Prepare

q(n, d) == RNorm(n, d)
z(n) == RI(n)
LeafTab == [
  n01 |-> <<"Normal", <<z(0), z(1)>>>>, n02 |-> <<"Normal", <<z(0), z(2)>>>>, n32 |-> <<"Normal", <<z(3), z(2)>>>>, nh |-> <<"Normal", <<z(-1), Half>>>>,
  n100 |-> <<"Normal", <<z(100), z(1)>>>>,
  u01 |-> <<"Uniform", <<z(0), z(1)>>>>, u11 |-> <<"Uniform", <<z(-1), z(1)>>>>, u02 |-> <<"Uniform", <<z(0), z(2)>>>>, u13 |-> <<"Uniform", <<z(1), z(3)>>>>,
  up1 |-> <<"UniformPi", <<RNeg(Half), Half>>>>, up2 |-> <<"UniformPi", <<R0, R1>>>>, up3 |-> <<"UniformPi", <<R0, Half>>>>,
  c1 |-> <<"Cauchy", <<z(1), z(0)>>>>, c2 |-> <<"Cauchy", <<z(2), z(1)>>>>, ch |-> <<"Cauchy", <<Half, z(-3)>>>>,
  x1 |-> <<"ChiSquare", <<z(1)>>>>, x2 |-> <<"ChiSquare", <<z(2)>>>>, x3 |-> <<"ChiSquare", <<z(3)>>>>, x4 |-> <<"ChiSquare", <<z(4)>>>>, x7 |-> <<"ChiSquare", <<z(7)>>>>,
  e1 |-> <<"Exponential", <<z(1)>>>>, e3 |-> <<"Exponential", <<z(3)>>>>, eh |-> <<"Exponential", <<Half>>>>,
  g2 |-> <<"Gamma", <<z(2), z(1)>>>>, g3 |-> <<"Gamma", <<z(3), z(1)>>>>, gh |-> <<"Gamma", <<Half, z(2)>>>>, g22 |-> <<"Gamma", <<z(2), Half>>>>, g5h |-> <<"Gamma", <<q(5, 2), z(1)>>>>,
  b12 |-> <<"Beta", <<z(1), z(2)>>>>, b21 |-> <<"Beta", <<z(2), z(1)>>>>, b22 |-> <<"Beta", <<z(2), z(2)>>>>, b31 |-> <<"Beta", <<z(3), z(1)>>>>, b32 |-> <<"Beta", <<z(3), z(2)>>>>,
  bhh |-> <<"Beta", <<Half, Half>>>>, b1h |-> <<"Beta", <<z(1), Half>>>>, b33 |-> <<"Beta", <<q(3, 2), q(3, 2)>>>>,
  p11 |-> <<"Pareto", <<z(1), z(1)>>>>, p21 |-> <<"Pareto", <<z(2), z(1)>>>>, p32 |-> <<"Pareto", <<z(3), z(2)>>>>, p51 |-> <<"Pareto", <<z(5), z(1)>>>>,
  l1 |-> <<"Levy", <<z(1), z(0)>>>>, l4 |-> <<"Levy", <<z(4), z(0)>>>>, l9 |-> <<"Levy", <<z(9), z(2)>>>>,
  a1 |-> <<"Laplace", <<z(1), z(0)>>>>, a2 |-> <<"Laplace", <<z(2), z(3)>>>>,
  t1 |-> <<"StudentT", <<z(1)>>>>, t3 |-> <<"StudentT", <<z(3)>>>>, t4 |-> <<"StudentT", <<z(4)>>>>,
  s1 |-> <<"Semicircle", <<z(1)>>>>, s2 |-> <<"Semicircle", <<z(2)>>>>,
  f22 |-> <<"F", <<z(2), z(2)>>>>, f24 |-> <<"F", <<z(2), z(4)>>>>, f35 |-> <<"F", <<z(3), z(5)>>>>, f11 |-> <<"F", <<z(1), z(1)>>>>,
  w21 |-> <<"Weibull", <<z(2), z(1)>>>>, w12 |-> <<"Weibull", <<z(1), z(2)>>>>, w31 |-> <<"Weibull", <<z(3), z(1)>>>>, wh |-> <<"Weibull", <<Half, z(1)>>>>,
  gu |-> <<"Gumbel", <<z(0), z(1)>>>>, gu2 |-> <<"Gumbel", <<z(0), z(2)>>>>,
  fr1 |-> <<"Frechet", <<z(1), z(1), z(0)>>>>, fr2 |-> <<"Frechet", <<z(2), z(1), z(0)>>>>, fr3 |-> <<"Frechet", <<z(3), z(2), z(0)>>>>, fr1b |-> <<"Frechet", <<z(1), z(2), z(0)>>>>,
  ll1 |-> <<"LogLogistic", <<z(1), z(1)>>>>, ll2 |-> <<"LogLogistic", <<z(2), z(1)>>>>, ll3 |-> <<"LogLogistic", <<z(3), z(2)>>>>,
  po1 |-> <<"Poisson", <<z(1)>>>>, po3 |-> <<"Poisson", <<z(3)>>>>, bi1 |-> <<"Binomial", <<z(4), q(1, 4)>>>>, bi2 |-> <<"Binomial", <<z(3), q(3, 4)>>>>,
  be |-> <<"Bernoulli", <<q(1, 4)>>>>, bb |-> <<"Bernoulli", <<Half>>>>, bi3 |-> <<"Binomial", <<z(5), Half>>>>]
AllLeaves == DOMAIN LeafTab

(* rule tables: token -> law *)
Consts == [addc |-> {<<1,1>>, <<-1,1>>, <<5,2>>}, rsubc |-> {<<1,1>>, <<2,1>>}, mulc |-> {<<2,1>>, <<-1,2>>, <<4,1>>}, divc |-> {<<3,1>>},
           rdivc |-> {<<1,1>>, <<-1,1>>, <<4,1>>}, powc |-> {<<2,1>>, <<3,1>>, <<-1,1>>, <<1,2>>, <<-1,2>>, <<-2,1>>, <<3,2>>},
           gt |-> {<<0,1>>, <<1,1>>, <<2,1>>, <<1,2>>}, lt |-> {<<0,1>>, <<1,1>>, <<1,2>>, <<-1,1>>, <<3,1>>}]
Zero1 == {<<0, 1>>}
CS(u) == IF u \in DOMAIN Consts THEN Consts[u] ELSE Zero1
Un(u, c, L) ==
  LET M == CASE u = "neg" -> Neg(L)
    [] u = "addc" -> IF L.w = "id" THEN AddC(L, c) ELSE Bad
    [] u = "rsubc" -> IF L.w = "id" THEN AddC(Neg(L), c) ELSE Bad
    [] u = "mulc" -> IF L.w = "id" THEN MulC(L, c) ELSE Bad
    [] u = "divc" -> IF L.w = "id" THEN MulC(L, RInv(c)) ELSE Bad
    [] u = "rdivc" -> (LET K == PowL(L, RNeg1) IN IF Ok(K) /\ K.w = "id" THEN MulC(K, c) ELSE IF Ok(K) /\ c = R1 THEN K ELSE Bad)
    [] u = "powc" -> (IF Pos(L) \/ (L.w = "exp" /\ L.f = "N") THEN PowL(L, c)
                     ELSE IF c = <<2, 1>> THEN SqrL(L)
                     ELSE IF c = RNeg1 /\ L.f = "C" THEN PowL(L, c) ELSE Bad)
    [] u = "sqr" -> SqrL(L) [] u = "abs" -> AbsL(L) [] u = "exp" -> ExpL(L) [] u = "log" -> LogL(L) [] u = "sqrt" -> SqrtL(L)
    [] u = "atan" -> AtanL(L) [] u = "tan" -> TanL(L) [] u = "sin" -> SinL(L) [] u = "cos" -> CosL(L)
    [] u = "sigmoid" -> SigL(L) [] u = "tanh" -> TanhL(L)
    [] u = "gt" -> GtL(L, c) [] u = "lt" -> LtL(L, c)
    [] OTHER -> Bad IN Reflect(M)
Bin(o, A, B) ==
  LET M == CASE o = "add" -> AddL(A, B) [] o = "sub" -> SubL(A, B) [] o = "mul" -> MulL(A, B) [] o = "div" -> DivL(A, B)
             [] o = "max" -> MaxL(A, B) [] o = "min" -> MinL(A, B) IN Reflect(M)
(* keep parameters inside 32 bit arithmetic *)
Tame(L) == /\ \A i \in 1..Len(L.p) : MaxI(AbsI(L.p[i][1]), L.p[i][2]) <= 40
           /\ MaxI(AbsI(L.a[1]), L.a[2]) <= 200 /\ MaxI(AbsI(L.b[1]), L.b[2]) <= 40

FracS(c) == IF c[2] = 1 THEN ToString(c[1]) ELSE ToString(c[1]) \o "/" \o ToString(c[2])
Tok(u, c) == IF u \in DOMAIN Consts THEN u \o ":" \o FracS(c) ELSE u
LeafE(n) == [e |-> <<n>>, L |-> Leaf(LeafTab[n][1], LeafTab[n][2]), r |-> <<>>]
UnE(u, c, x) == [e |-> Append(x.e, Tok(u, c)), L |-> Un(u, c, x.L), r |-> Append(x.r, <<u, x.L.f, x.L.w>>)]
BinE(o, x, y) == [e |-> x.e \o y.e \o <<o>>, L |-> Bin(o, x.L, y.L), r |-> x.r \o y.r \o <<<<o, x.L.f \o y.L.f, x.L.w \o y.L.w>>>>]
Good(x) == Ok(x.L) /\ Tame(x.L)
(* operands: leaves and, where asked for, functions of them *)
Operands1 == {LeafE(n) : n \in Leaves}
PrepOps == {<<u, <<0, 1>>>> : u \in Prepare \ DOMAIN Consts} \cup UNION {{<<u, c>> : c \in CS(u)} : u \in Prepare \cap DOMAIN Consts}
Operands2 == {x \in {UnE(o[1], o[2], LeafE(n)) : o \in PrepOps, n \in Leaves} : Good(x)}
Operands == Operands1 \cup Operands2
Second == {LeafE(n) : n \in SecondLeaves}

VARIABLES cur, step, prev
vars == <<cur, step, prev>>
NoPrev == [op |-> "", A |-> Bad, B |-> Bad, c |-> R0]
Init == cur \in Operands1 /\ step = 0 /\ prev = NoPrev
DoUn(u, c) == LET x == UnE(u, c, cur) IN Good(x) /\ cur' = x /\ step' = step + 1 /\ prev' = [op |-> u, A |-> cur.L, B |-> Bad, c |-> c]
DoBin(o, x, y) == LET s == BinE(o, x, y) IN Good(s) /\ cur' = s /\ step' = step + 1 /\ prev' = [op |-> o, A |-> x.L, B |-> y.L, c |-> R0]
Next == /\ step < MaxSteps
        /\ \/ \E u \in UnSet : \E c \in CS(u) : DoUn(u, c)
           \/ \E o \in BinSet : \E y \in IF step = 0 THEN Operands ELSE Second :
                 \/ DoBin(o, cur, y)
                 \/ (o \in {"sub", "div"} /\ DoBin(o, y, cur))
Spec == Init /\ [][Next]_vars

(* ---- the theorems against the calculus of moments ---- *)
Both(a, b, f(_, _)) == IF a.t = "f" /\ b.t = "f" THEN Fin(f(a.v, b.v)) ELSE Unk
VarOf(m, s) == IF m.t = "f" /\ s.t = "f" THEN Fin(RSub(s.v, RSq(m.v))) ELSE Unk
Calc == LET A == prev.A  B == prev.B  o == prev.op IN
  CASE o \in {"add", "sub"} -> [m |-> Both(Mean(A), Scl(Mean(B), IF o = "add" THEN R1 ELSE RNeg1), RAdd), v |-> Both(Var(A), Var(B), RAdd)]
    [] o = "mul" -> (LET m == Both(Mean(A), Mean(B), RMul) IN [m |-> m, v |-> VarOf(m, Both(M2L(A), M2L(B), RMul))])
    [] o = "neg" -> [m |-> Scl(Mean(A), RNeg1), v |-> Var(A)]
    [] o = "addc" -> [m |-> Both(Mean(A), Fin(prev.c), RAdd), v |-> Var(A)]
    [] o = "rsubc" -> [m |-> Both(Fin(prev.c), Mean(A), RSub), v |-> Var(A)]
    [] o = "mulc" -> [m |-> Scl(Mean(A), prev.c), v |-> Scl(Var(A), RSq(prev.c))]
    [] o = "sqr" \/ (o = "powc" /\ prev.c = <<2, 1>>) -> [m |-> M2L(A), v |-> Unk]
    [] o = "abs" -> [m |-> Unk, v |-> VarOf(Mean(cur.L), M2L(A))]
    [] o \in {"max", "min"} ->
         (LET other == IF o = "max" THEN Bin("min", A, B) ELSE Bin("max", A, B) IN
          IF ~(Ok(other) /\ Tame(other)) THEN [m |-> Unk, v |-> Unk]
          ELSE LET m == Both(Both(Mean(A), Mean(B), RAdd), Mean(other), RSub) IN
               [m |-> m, v |-> VarOf(m, Both(Both(M2L(A), M2L(B), RAdd), M2L(other), RSub))])
    [] OTHER -> [m |-> Unk, v |-> Unk]
Fits(calc, law) == calc.t # "f" \/ law.t = "u" \/ (law.t = "f" /\ law.v = calc.v)
Proper == ValidParams(cur.L)
Moments == prev.op = "" \/ LET c == Calc IN Fits(c.m, Mean(cur.L)) /\ Fits(c.v, Var(cur.L))
Positive == LET v == Var(cur.L) IN v.t = "f" => RLt(R0, v.v)

(* ---- cdfs that are rational: powers of a uniform and their reciprocals ---- *)
RatCdf(L) == Pure(L) /\ L.f = "B" /\ L.p[2] = R1 /\ IsInt(L.p[4]) /\ IsInt(L.p[1]) /\ L.b = R1
(* P(Y <= y) with Y^p/S ~ Beta(a,1) *)
RCdf(L, x) == LET y == RSub(x, L.a) IN
  IF RLe(y, R0) THEN R0
  ELSE LET u == RDiv(RPowI(y, L.p[4][1]), L.p[3]) IN
       IF RLt(R0, L.p[4]) THEN (IF RLe(R1, u) THEN R1 ELSE RPowI(u, L.p[1][1]))
       ELSE (IF RLe(R1, u) THEN R0 ELSE RSub(R1, RPowI(u, L.p[1][1])))
Pts == {q(1, 3), Half, R1, q(3, 2), z(2), z(3)}
TinyLaw(L) == \A i \in 1..Len(L.p) : AbsI(L.p[i][1]) <= 4 /\ L.p[i][2] <= 4
Cdfs == LET A == prev.A  B == prev.B  o == prev.op  L == cur.L IN
  /\ (o \in {"max", "min"} /\ RatCdf(A) /\ RatCdf(B) /\ RatCdf(L) /\ TinyLaw(A) /\ TinyLaw(B)) =>
       \A x \in Pts : LET F == RCdf(A, x)  G == RCdf(B, x) IN
         RCdf(L, x) = IF o = "max" THEN RMul(F, G) ELSE RSub(RAdd(F, G), RMul(F, G))
  /\ (o \in {"gt", "lt"} /\ RatCdf(A) /\ RatCdf(L) /\ TinyLaw(A)) =>
       \A x \in Pts : LET F == RCdf(A, x)  G == RCdf(A, prev.c) IN
         IF o = "gt" THEN (RLe(prev.c, x) => RMul(RCdf(L, x), RSub(R1, G)) = RSub(F, G))
         ELSE RMul(RCdf(L, x), G) = RMin(F, G)
  /\ (o = "powc" /\ RatCdf(A) /\ RatCdf(L) /\ TinyLaw(A) /\ IsInt(prev.c) /\ prev.c[1] > 0) =>
       \A x \in Pts : RCdf(L, RPow(x, prev.c[1])) = RCdf(A, x)
EmitInv == step = 0 \/ Emit([e |-> cur.e, r |-> cur.r, L |-> cur.L, mean |-> Mean(cur.L), var |-> Var(cur.L),
                             ls |-> LET Names == {cur.e[i] : i \in 1..Len(cur.e)} \cap AllLeaves IN [n \in Names |-> LeafTab[n]]])
=============================================================================
