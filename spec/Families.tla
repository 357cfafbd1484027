------------------------------ MODULE Families ------------------------------
(* Named laws and the theorems that close them under arithmetic.             *)
(*                                                                           *)
(* A law is  X = a + b * w(Y)  with Y of a canonical kind:                   *)
(*   N <<v>>        normal, mean 0, variance v                               *)
(*   C <<g>>        Cauchy, centre 0, scale g                                *)
(*   T <<df>>       Student                                                  *)
(*   G <<k,S,p>>    Y^p ~ Gamma(shape k, scale S)   (gamma, chi-square, chi, *)
(*                  exponential, Weibull, Rayleigh; p < 0: Levy, Frechet,    *)
(*                  inverse gamma)                                           *)
(*   B <<a,b,S,p>>  Y^p / S ~ Beta(a, b)            (uniform, beta, powers;  *)
(*                  p < 0: Pareto)                                           *)
(*   R <<a,b,S,p>>  Y^p / S ~ Beta'(a, b), the ratio of a Gamma(a,1) and a   *)
(*                  Gamma(b,1)                      (F, log-logistic)        *)
(*   A <<s,t>>      difference of exponentials with means s and t (Laplace)  *)
(*   SC <<R>>       semicircle;                                              *)
(*   NN <<v>>       product of two centred normals, v the product of the     *)
(*                  variances                                                *)
(*   UP <<l,h>>     uniform on [l pi, h pi]                                  *)
(*   P <<l>>, BI <<n,p>>, GE <<p>>   Poisson, binomial, geometric            *)
(*   TZ <<a,b,c,d>> trapezoidal, MO <<e>> mollifier, K <<c>> constant,       *)
(*   NCT, NCC, NCB, NCF: noncentral t, chi-square, beta, F (never operands   *)
(*                  of a theorem below, only catalogue entries)              *)
(* and w one of id, exp, log, atan.  All parameters are rational.            *)
EXTENDS Rat, FiniteSets, TLC

Half == <<1, 2>>
RNeg1 == <<-1, 1>>
IsInt(r) == r[2] = 1
RGt(x, y) == RLt(y, x)
(* integer powers, square roots where they are rational *)
RPowI(r, n) == IF n >= 0 THEN RPow(r, n) ELSE RInv(RPow(r, -n))
IsSqI(n) == \E m \in 0..200 : m * m = n
SqI(n) == CHOOSE m \in 0..200 : m * m = n
IsSq(r) == IsSqI(r[1]) /\ IsSqI(r[2])
Sq(r) == <<SqI(r[1]), SqI(r[2])>>
(* r^q where it is rational: q integer, half integer of a square, or r = 1 *)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
CanPow(r, q) == r = R1 \/ (Bits(MaxI(AbsI(r[1]), r[2])) * AbsI(q[1]) <= 16 /\ (IsInt(q) \/ (q[2] = 2 /\ IsSq(r))))
PowQ(r, q) == IF r = R1 THEN R1 ELSE IF IsInt(q) THEN RPowI(r, q[1]) ELSE RPowI(Sq(r), q[1])

Law0(f, p) == [f |-> f, p |-> p, a |-> R0, b |-> R1, w |-> "id"]
Bad == [f |-> "?", p |-> <<>>, a |-> R0, b |-> R1, w |-> "id"]
Ok(L) == L.f # "?"

(* canonical form: a positive factor is absorbed where the parameters stay rational *)
Norm(L) ==
  LET s == RAbs(L.b)  g == RI(RSgn(L.b)) IN
  IF L.w # "id" THEN
     IF L.w = "log" /\ L.f \in {"G", "B", "R"} /\ L.b # R1
     THEN LET j == Len(L.p) IN [L EXCEPT !.b = R1, !.p[j] = RDiv(L.p[j], L.b)]       \* b log Y = log Y^b
     ELSE IF L.w = "exp" /\ L.f = "N" /\ FALSE THEN L ELSE L
  ELSE CASE L.f = "N" -> [L EXCEPT !.p[1] = RMul(L.p[1], RSq(L.b)), !.b = R1]
         [] L.f = "C" -> [L EXCEPT !.p[1] = RMul(L.p[1], s), !.b = R1]
         [] L.f = "SC" -> [L EXCEPT !.p[1] = RMul(L.p[1], s), !.b = R1]
         [] L.f = "NN" -> [L EXCEPT !.p[1] = RMul(L.p[1], RSq(L.b)), !.b = R1]
         [] L.f = "UP" -> IF L.b[1] > 0 THEN [L EXCEPT !.p = <<RMul(L.p[1], s), RMul(L.p[2], s)>>, !.b = R1]
                          ELSE [L EXCEPT !.p = <<RNeg(RMul(L.p[2], s)), RNeg(RMul(L.p[1], s))>>, !.b = R1]
         [] L.f = "T" -> IF L.p[1] = R1 THEN [L EXCEPT !.f = "C", !.p = <<s>>, !.b = R1] ELSE [L EXCEPT !.b = s]
         [] L.f = "A" -> IF L.b[1] > 0 THEN [L EXCEPT !.p = <<RMul(L.p[1], s), RMul(L.p[2], s)>>, !.b = R1]
                         ELSE [L EXCEPT !.p = <<RMul(L.p[2], s), RMul(L.p[1], s)>>, !.b = R1]
         [] L.f = "G" -> IF CanPow(s, L.p[3]) THEN [L EXCEPT !.p[2] = RMul(L.p[2], PowQ(s, L.p[3])), !.b = g] ELSE L
         [] L.f \in {"B", "R"} -> IF CanPow(s, L.p[4]) THEN [L EXCEPT !.p[3] = RMul(L.p[3], PowQ(s, L.p[4])), !.b = g] ELSE L
         [] OTHER -> L
NLaw(f, p, a, b) == Norm([f |-> f, p |-> p, a |-> a, b |-> b, w |-> "id"])
Wrap(w, L) == [f |-> L.f, p |-> L.p, a |-> R0, b |-> R1, w |-> w]        \* only for a = 0, b = 1 inside

(* ------------------------------- catalogue ------------------------------ *)
(* one operator per family offered by the library: constructor parameters -> law *)
Leaf(n, q) ==
  CASE n = "Normal"      -> NLaw("N", <<RSq(q[2])>>, q[1], R1)
    [] n = "Uniform"     -> NLaw("B", <<R1, R1, RSub(q[2], q[1]), R1>>, q[1], R1)
    [] n = "Cauchy"      -> NLaw("C", <<q[1]>>, q[2], R1)
    [] n = "ChiSquare"   -> NLaw("G", <<RMul(Half, q[1]), RI(2), R1>>, R0, R1)
    [] n = "Exponential" -> NLaw("G", <<R1, RInv(q[1]), R1>>, R0, R1)
    [] n = "Gamma"       -> NLaw("G", <<q[1], q[2], R1>>, R0, R1)
    [] n = "Beta"        -> NLaw("B", <<q[1], q[2], R1, R1>>, R0, R1)
    [] n = "Pareto"      -> NLaw("B", <<q[1], R1, R1, RNeg1>>, R0, q[2])
    [] n = "Levy"        -> NLaw("G", <<Half, RI(2), RNeg1>>, q[2], q[1])
    [] n = "Laplace"     -> NLaw("A", <<q[1], q[1]>>, q[2], R1)
    [] n = "StudentT"    -> NLaw("T", <<q[1]>>, R0, R1)
    [] n = "Semicircle"  -> NLaw("SC", <<q[1]>>, R0, R1)
    [] n = "F"           -> NLaw("R", <<RMul(Half, q[1]), RMul(Half, q[2]), RDiv(q[2], q[1]), R1>>, R0, R1)
    [] n = "Weibull"     -> NLaw("G", <<R1, R1, q[1]>>, R0, q[2])
    [] n = "Gumbel"      -> [NLaw("G", <<R1, R1, RNeg(RInv(q[2]))>>, q[1], R1) EXCEPT !.w = "log"]
    [] n = "Frechet"     -> NLaw("G", <<R1, R1, RNeg(q[1])>>, q[3], q[2])
    [] n = "LogLogistic" -> NLaw("R", <<R1, R1, R1, q[1]>>, R0, q[2])
    [] n = "UniformPi"   -> Law0("UP", q)
    [] n = "Trapezoidal" -> Law0("TZ", q)
    [] n = "Mollifier"   -> Law0("MO", q)
    [] n = "NoncentralT" -> IF q[2] = R0 THEN NLaw("T", <<q[1]>>, R0, R1) ELSE Law0("NCT", q)
    [] n = "NoncentralChiSquare" -> IF q[2] = R0 THEN NLaw("G", <<RMul(Half, q[1]), RI(2), R1>>, R0, R1) ELSE Law0("NCC", q)
    [] n = "NoncentralBeta" -> IF q[3] = R0 THEN NLaw("B", <<q[1], q[2], R1, R1>>, R0, R1) ELSE Law0("NCB", q)
    [] n = "NoncentralF" -> IF q[3] = R0 THEN NLaw("R", <<RMul(Half, q[1]), RMul(Half, q[2]), RDiv(q[2], q[1]), R1>>, R0, R1) ELSE Law0("NCF", q)
    [] n = "Const"       -> Law0("K", q)
    [] n = "Zero"        -> Law0("K", <<R0>>)
    [] n = "One"         -> Law0("K", <<R1>>)
    (* user supplied densities: a power, an exponential, a normal, a Pareto and an arcsine density *)
    [] n = "FunPower"    -> NLaw("B", <<q[1], R1, q[2], R1>>, R0, R1)
    [] n = "FunExp"      -> NLaw("G", <<R1, q[1], R1>>, q[2], R1)
    [] n = "FunNormal"   -> NLaw("N", <<RSq(q[2])>>, q[1], R1)
    [] n = "FunPareto"   -> NLaw("B", <<q[1], R1, R1, RNeg1>>, R0, R1)
    [] n = "FunArcsine"  -> NLaw("B", <<Half, Half, RI(2), R1>>, RNeg1, R1)
    [] n = "TruncPoisson" -> Law0("P", q)
    [] n = "TruncGeometric" -> Law0("GE", q)
    [] n = "Poisson"     -> Law0("P", <<q[1]>>)
    [] n = "Binomial"    -> Law0("BI", <<q[1], q[2]>>)
    [] n = "Bernoulli"   -> Law0("BI", <<R1, q[1]>>)

(* ------------------------------- theorems ------------------------------- *)
Pure(L) == L.w = "id"
Pos(L) == Pure(L) /\ L.a = R0 /\ L.b = R1 /\ L.f \in {"G", "B", "R"}      \* positive, canonical
Ctr(L) == Pure(L) /\ L.a = R0
Pw(L) == L.p[Len(L.p)]                                                    \* the power p of G, B, R
Same(S, T) == S = T

Neg(L) == Norm([L EXCEPT !.a = RNeg(L.a), !.b = RNeg(L.b)])
(* 1/Beta(a,b) - 1 ~ Beta'(b,a); Pareto - 1 is one of them *)
AddC(L, c) == IF Pos(L) /\ L.f = "B" /\ L.p[3] = R1 /\ L.p[4] = RNeg1 /\ c = RNeg1
              THEN NLaw("R", <<L.p[2], L.p[1], R1, R1>>, R0, R1)
              ELSE [L EXCEPT !.a = RAdd(L.a, c)]
MulC(L, c) == IF L.f \in {"P", "BI"} THEN Bad ELSE Norm([L EXCEPT !.a = RMul(L.a, c), !.b = RMul(L.b, c)])
(* powers of positive laws: Y^q has power p/q *)
PowL(L, q) == IF Pure(L) /\ L.a = R0 /\ L.f \in {"G", "B", "R"} /\ L.b = R1
              THEN [L EXCEPT !.p[Len(L.p)] = RDiv(Pw(L), q)]
              ELSE IF Pure(L) /\ L.a = R0 /\ L.f \in {"G", "B", "R"} /\ L.b = RNeg1 /\ q = RNeg1
              THEN [L EXCEPT !.p[Len(L.p)] = RNeg(Pw(L))]
              (* 1/(1 + Beta'(a,b)) ~ Beta(b,a) *)
              ELSE IF Pure(L) /\ L.f = "R" /\ L.a = R1 /\ L.b = R1 /\ L.p[3] = R1 /\ L.p[4] = R1 /\ q = RNeg1
              THEN NLaw("B", <<L.p[2], L.p[1], R1, R1>>, R0, R1)
              ELSE IF L.w = "exp" /\ L.a = R0 /\ L.b = R1 /\ L.f = "N"
              THEN Wrap("exp", NLaw("N", <<RMul(L.p[1], RSq(q))>>, R0, R1))
              ELSE IF Ctr(L) /\ L.f = "C" /\ q = RNeg1 THEN [L EXCEPT !.p[1] = RInv(L.p[1])]
              ELSE Bad
AbsL(L) ==
  (* a symmetric beta law about 0: the square of Y/(S/2) is Beta(1/2, c) *)
  IF Pure(L) /\ L.f = "B" /\ L.p[1] = L.p[2] /\ L.p[4] = R1 /\ L.a = RNeg(RMul(Half, RMul(L.b, L.p[3]))) /\ RAbs(L.b) = R1
  THEN IF L.p[1] = R1 THEN NLaw("B", <<R1, R1, RMul(Half, L.p[3]), R1>>, R0, R1)
       ELSE NLaw("B", <<Half, L.p[1], RSq(RMul(Half, L.p[3])), RI(2)>>, R0, R1)
  ELSE IF L.f = "UP" /\ L.a = R0 /\ Pure(L) /\ L.p[1] = RNeg(L.p[2]) THEN [L EXCEPT !.p[1] = R0]
  ELSE IF ~Ctr(L) THEN Bad
  ELSE CASE L.f = "N" -> NLaw("G", <<Half, RMul(RI(2), L.p[1]), RI(2)>>, R0, R1)
         [] L.f = "C" -> NLaw("R", <<Half, Half, RSq(L.p[1]), RI(2)>>, R0, R1)
         [] L.f = "T" -> NLaw("R", <<Half, RMul(Half, L.p[1]), RMul(L.p[1], RSq(L.b)), RI(2)>>, R0, R1)
         [] L.f = "A" -> IF L.p[1] = L.p[2] THEN NLaw("G", <<R1, L.p[1], R1>>, R0, R1) ELSE Bad
         [] L.f = "SC" -> NLaw("B", <<Half, <<3, 2>>, RSq(L.p[1]), RI(2)>>, R0, R1)
         [] L.f \in {"G", "B", "R"} -> [L EXCEPT !.b = RAbs(L.b)]
         [] OTHER -> Bad
SqrL(L) == LET M == AbsL(L) IN IF Ok(M) /\ M.b = R1 THEN PowL(M, RI(2)) ELSE Bad
(* exp and log; an exponential variable's image is a power law *)
ExpL(L) ==
  IF L.w = "log" /\ L.a = R0 THEN [L EXCEPT !.w = "id"]
  ELSE IF ~Ctr(L) THEN Bad
  ELSE IF L.f = "G" /\ L.p[1] = R1 /\ L.p[3] = R1 /\ RAbs(L.b) = R1
       THEN NLaw("B", <<RInv(L.p[2]), R1, R1, RNeg(L.b)>>, R0, R1)
  ELSE IF L.f = "N" THEN Wrap("exp", L)
  ELSE IF L.f = "G" /\ L.p[3] = R1 /\ L.b = R1 THEN Wrap("exp", L) ELSE Bad
LogL(L) ==
  IF L.w = "exp" /\ L.a = R0 /\ L.b = R1 THEN [L EXCEPT !.w = "id"]
  ELSE IF ~Pos(L) THEN Bad
  ELSE IF L.f = "B" /\ L.p[2] = R1 /\ L.p[3] = R1
       THEN NLaw("G", <<R1, RInv(RMul(L.p[1], RAbs(L.p[4]))), R1>>, R0, RI(-RSgn(L.p[4])))
  ELSE Wrap("log", L)
AtanL(L) == IF Ctr(L) /\ L.f = "C" /\ L.p[1] = R1 THEN Law0("UP", <<RNeg(Half), Half>>)
            ELSE IF Pos(L) /\ L.f = "R" /\ L.p = <<Half, Half, R1, RI(2)>> THEN Law0("UP", <<R0, Half>>)
            ELSE IF Ctr(L) /\ L.f \in {"C", "N", "G"} /\ L.b = R1 THEN Wrap("atan", L) ELSE Bad
(* trigonometric images of uniform angles *)
IsUP(L, l, h) == L.f = "UP" /\ Pure(L) /\ L.a = R0 /\ L.p = <<l, h>>
TanL(L) == IF IsUP(L, RNeg(Half), Half) THEN NLaw("C", <<R1>>, R0, R1)
           ELSE IF IsUP(L, R0, Half) THEN NLaw("R", <<Half, Half, R1, RI(2)>>, R0, R1) ELSE Bad
SinL(L) == IF IsUP(L, RNeg(Half), Half) THEN NLaw("B", <<Half, Half, RI(2), R1>>, RNeg1, R1)
           ELSE IF IsUP(L, R0, Half) THEN NLaw("B", <<Half, Half, R1, RI(2)>>, R0, R1) ELSE Bad
CosL(L) == IF IsUP(L, R0, R1) THEN NLaw("B", <<Half, Half, RI(2), R1>>, RNeg1, R1)
           ELSE IF IsUP(L, R0, Half) THEN NLaw("B", <<Half, Half, R1, RI(2)>>, R0, R1) ELSE Bad
(* log of a beta-prime is a generalised logistic variable *)
SigL(L) == IF L.w = "log" /\ L.f = "R" /\ L.a = R0 /\ L.b = R1 /\ L.p[3] = R1 /\ L.p[4] = R1
           THEN NLaw("B", <<L.p[1], L.p[2], R1, R1>>, R0, R1) ELSE Bad
TanhL(L) == IF L.w = "log" /\ L.f = "R" /\ L.a = R0 /\ L.b = R1 /\ L.p[3] = R1 /\ L.p[4] = RI(2)
            THEN NLaw("B", <<L.p[1], L.p[2], RI(2), R1>>, RNeg1, R1) ELSE Bad
SqrtL(L) == IF Pos(L) THEN PowL(L, Half) ELSE Bad
(* conditioning: memoryless laws and power laws *)
GtL(L, c) ==
  IF ~Pure(L) THEN Bad
  ELSE IF L.f = "G" /\ L.p[1] = R1 /\ L.p[3] = R1 /\ L.b = R1 /\ RLe(L.a, c) THEN [L EXCEPT !.a = c]
  ELSE IF L.f = "B" /\ L.p[1] = R1 /\ L.p[4] = R1 /\ L.b = R1 /\ RLe(L.a, c) /\ RLt(c, RAdd(L.a, L.p[3]))
       THEN [L EXCEPT !.a = c, !.p[3] = RSub(RAdd(L.a, L.p[3]), c)]
  ELSE IF Pos(L) /\ L.f = "B" /\ L.p[2] = R1 /\ Pw(L) = RNeg1 /\ RGt(c, R0) /\ RLe(RInv(L.p[3]), c)
       THEN [L EXCEPT !.p[3] = RInv(c)]
  ELSE IF L.f = "N" /\ c = L.a THEN [NLaw("G", <<Half, RMul(RI(2), L.p[1]), RI(2)>>, R0, R1) EXCEPT !.a = L.a]
  ELSE IF L.f = "A" /\ RLe(L.a, c) THEN NLaw("G", <<R1, L.p[1], R1>>, c, R1)
  ELSE Bad
LtL(L, c) ==
  IF ~Pure(L) THEN Bad
  ELSE IF Pos(L) /\ L.f = "B" /\ L.p[2] = R1 /\ RLt(R0, Pw(L)) /\ IsInt(Pw(L)) /\ RGt(c, R0) /\ RLe(PowQ(c, Pw(L)), L.p[3])
       THEN [L EXCEPT !.p[3] = PowQ(c, Pw(L))]
  ELSE IF L.f = "A" /\ RLe(c, L.a) THEN NLaw("G", <<R1, L.p[2], R1>>, c, RNeg1)
  ELSE IF L.f = "N" /\ c = L.a THEN [NLaw("G", <<Half, RMul(RI(2), L.p[1]), RI(2)>>, R0, RNeg1) EXCEPT !.a = L.a]
  ELSE Bad

RECURSIVE MulL(_, _)
RECURSIVE AddL(_, _)
AddL(A, B) ==
  IF A.w = "log" /\ B.w = "log" /\ A.f \in {"G", "B", "R"} /\ B.f \in {"G", "B", "R"}
  THEN LET M == MulL([A EXCEPT !.w = "id", !.a = R0], [B EXCEPT !.w = "id", !.a = R0]) IN
       IF Ok(M) /\ Pos(M) THEN [Wrap("log", M) EXCEPT !.a = RAdd(A.a, B.a)] ELSE Bad
  ELSE IF ~(Pure(A) /\ Pure(B)) THEN Bad
  ELSE LET a == RAdd(A.a, B.a) IN
  CASE A.f = "N" /\ B.f = "N" -> NLaw("N", <<RAdd(A.p[1], B.p[1])>>, a, R1)
    [] A.f = "C" /\ B.f = "C" -> NLaw("C", <<RAdd(A.p[1], B.p[1])>>, a, R1)
    [] A.f = "G" /\ B.f = "G" /\ A.p[3] = R1 /\ B.p[3] = R1 /\ A.p[2] = B.p[2] /\ A.b = B.b ->
         NLaw("G", <<RAdd(A.p[1], B.p[1]), A.p[2], R1>>, a, A.b)
    [] A.f = "G" /\ B.f = "G" /\ A.p[3] = R1 /\ B.p[3] = R1 /\ A.p[1] = R1 /\ B.p[1] = R1 /\ A.b = RNeg(B.b) ->
         IF A.b = R1 THEN NLaw("A", <<A.p[2], B.p[2]>>, a, R1) ELSE NLaw("A", <<B.p[2], A.p[2]>>, a, R1)
    (* N1 N2 + N3 N4 is a Laplace variable *)
    [] A.f = "NN" /\ B.f = "NN" /\ A.p[1] = B.p[1] /\ IsSq(A.p[1]) -> NLaw("A", <<Sq(A.p[1]), Sq(A.p[1])>>, a, R1)
    [] A.f = "K" /\ B.f = "K" -> Law0("K", <<RAdd(RAdd(A.p[1], A.a), RAdd(B.p[1], B.a))>>)
    (* one-sided stable laws of index 1/2: Y = c * Levy(1), 1/Y ~ Gamma(1/2, 2/c) *)
    [] A.f = "G" /\ B.f = "G" /\ A.p[1] = Half /\ B.p[1] = Half /\ A.p[3] = RNeg1 /\ B.p[3] = RNeg1 /\ A.b = B.b
       /\ IsSq(RDiv(RI(2), A.p[2])) /\ IsSq(RDiv(RI(2), B.p[2])) ->
         LET c == RSq(RAdd(Sq(RDiv(RI(2), A.p[2])), Sq(RDiv(RI(2), B.p[2])))) IN NLaw("G", <<Half, RDiv(RI(2), c), RNeg1>>, a, A.b)
    [] A.f = "P" /\ B.f = "P" /\ A.b = R1 /\ B.b = R1 -> [Law0("P", <<RAdd(A.p[1], B.p[1])>>) EXCEPT !.a = a]
    [] A.f = "BI" /\ B.f = "BI" /\ A.b = R1 /\ B.b = R1 /\ A.p[2] = B.p[2] ->
         [Law0("BI", <<RAdd(A.p[1], B.p[1]), A.p[2]>>) EXCEPT !.a = a]
    (* n - Bin(n,p) ~ Bin(n, 1-p) *)
    [] A.f = "BI" /\ B.f = "BI" /\ A.b = R1 /\ B.b = RNeg1 /\ A.p[2] = RSub(R1, B.p[2]) ->
         [Law0("BI", <<RAdd(A.p[1], B.p[1]), A.p[2]>>) EXCEPT !.a = RSub(a, B.p[1])]
    [] OTHER -> Bad
SubL(A, B) == AddL(A, Neg(B))
MulL(A, B) ==
  IF A.w = "exp" /\ B.w = "exp" /\ A.a = R0 /\ B.a = R0 /\ A.b = R1 /\ B.b = R1
  THEN LET M == AddL([A EXCEPT !.w = "id"], [B EXCEPT !.w = "id"]) IN IF Ok(M) THEN Wrap("exp", M) ELSE Bad
  ELSE IF ~(Pure(A) /\ Pure(B) /\ A.a = R0 /\ B.a = R0) THEN Bad
  ELSE IF A.b # R1 \/ B.b # R1 THEN
       (IF RAbs(A.b) = R1 /\ RAbs(B.b) = R1 /\ A.f \in {"G", "B", "R"} /\ B.f \in {"G", "B", "R"}
        THEN LET M == MulL([A EXCEPT !.b = R1], [B EXCEPT !.b = R1]) IN
             IF Ok(M) /\ Pos(M) THEN [M EXCEPT !.b = RMul(A.b, B.b)] ELSE Bad
        ELSE Bad)
  ELSE CASE
       (* Gamma(a+b) * Beta(a,b) ~ Gamma(a) *)
       A.f = "G" /\ B.f = "B" /\ A.p[3] = B.p[4] /\ A.p[1] = RAdd(B.p[1], B.p[2]) ->
         NLaw("G", <<B.p[1], RMul(A.p[2], B.p[3]), A.p[3]>>, R0, R1)
    [] A.f = "B" /\ B.f = "G" /\ B.p[3] = A.p[4] /\ B.p[1] = RAdd(A.p[1], A.p[2]) ->
         NLaw("G", <<A.p[1], RMul(B.p[2], A.p[3]), B.p[3]>>, R0, R1)
       (* Beta(a,b) * Beta(a+b,c) ~ Beta(a,b+c) *)
    [] A.f = "B" /\ B.f = "B" /\ A.p[4] = B.p[4] /\ B.p[1] = RAdd(A.p[1], A.p[2]) ->
         NLaw("B", <<A.p[1], RAdd(A.p[2], B.p[2]), RMul(A.p[3], B.p[3]), A.p[4]>>, R0, R1)
    [] A.f = "B" /\ B.f = "B" /\ A.p[4] = B.p[4] /\ A.p[1] = RAdd(B.p[1], B.p[2]) ->
         NLaw("B", <<B.p[1], RAdd(A.p[2], B.p[2]), RMul(A.p[3], B.p[3]), A.p[4]>>, R0, R1)
       (* powers of uniforms: logarithms add up to a gamma law *)
    [] A.f = "B" /\ B.f = "B" /\ A.p[2] = R1 /\ B.p[2] = R1 /\ A.p[3] = R1 /\ B.p[3] = R1 /\ RMul(A.p[1], A.p[4]) = RMul(B.p[1], B.p[4]) /\ RLt(A.p[4], R0) ->
         Wrap("exp", NLaw("G", <<RI(2), RInv(RMul(A.p[1], RNeg(A.p[4]))), R1>>, R0, R1))
    [] A.f = "N" /\ B.f = "N" -> NLaw("NN", <<RMul(A.p[1], B.p[1])>>, R0, R1)
       (* an exponential variable times a random sign-like factor: |N| |N'| forms are left out *)
       (* ratios of gammas *)
    [] A.f = "G" /\ B.f = "G" /\ A.p[3] = RNeg(B.p[3]) ->
         NLaw("R", <<A.p[1], B.p[1], RDiv(A.p[2], B.p[2]), A.p[3]>>, R0, R1)
       (* uniform times Gamma(2) is exponential: the case Beta(1,1) above *)
    [] OTHER -> Bad
DivL(A, B) ==
  IF Ctr(A) /\ Ctr(B) /\ A.f = "N" /\ B.f = "N" /\ IsSq(RDiv(A.p[1], B.p[1])) THEN NLaw("C", <<Sq(RDiv(A.p[1], B.p[1]))>>, R0, R1)
  ELSE IF Ctr(A) /\ A.f = "N" /\ Pos(B) /\ B.f = "G" /\ B.p[3] = RI(2) /\ IsSq(RDiv(A.p[1], RMul(B.p[1], B.p[2])))
       THEN NLaw("T", <<RMul(RI(2), B.p[1])>>, R0, Sq(RDiv(A.p[1], RMul(B.p[1], B.p[2]))))
  ELSE IF B.w = "exp" /\ A.w = "exp" /\ B.f = "N" /\ A.f = "N" THEN MulL(A, B)          \* a centred normal is symmetric
  ELSE IF ~Pos(B) THEN Bad ELSE MulL(A, PowL(B, RNeg1))
RECURSIVE MaxL(_, _)
MaxL(A, B) ==
  IF A.w = "log" /\ B.w = "log" /\ A.a = R0 /\ B.a = R0
  THEN LET M == MaxL([A EXCEPT !.w = "id"], [B EXCEPT !.w = "id"]) IN IF Ok(M) /\ Pos(M) THEN Wrap("log", M) ELSE Bad
  ELSE IF ~(Pure(A) /\ Pure(B) /\ A.a = B.a /\ A.b = B.b) THEN Bad
  ELSE IF A.b = R1 THEN CASE
       A.f = "G" /\ B.f = "G" /\ A.p[1] = R1 /\ B.p[1] = R1 /\ A.p[3] = B.p[3] /\ RLt(A.p[3], R0) ->
         NLaw("G", <<R1, RInv(RAdd(RInv(A.p[2]), RInv(B.p[2]))), A.p[3]>>, A.a, R1)
    [] A.f = "B" /\ B.f = "B" /\ A.p[2] = R1 /\ B.p[2] = R1 /\ A.p[3] = B.p[3] /\ A.p[4] = B.p[4] /\ RLt(R0, A.p[4]) ->
         NLaw("B", <<RAdd(A.p[1], B.p[1]), R1, A.p[3], A.p[4]>>, A.a, R1)
    [] OTHER -> Bad
  ELSE IF A.b = RNeg1 THEN CASE          \* max(-X,-Y) = -min(X,Y)
       A.f = "G" /\ B.f = "G" /\ A.p[1] = R1 /\ B.p[1] = R1 /\ A.p[3] = B.p[3] /\ RLt(R0, A.p[3]) ->
         NLaw("G", <<R1, RInv(RAdd(RInv(A.p[2]), RInv(B.p[2]))), A.p[3]>>, A.a, RNeg1)
    [] A.f = "B" /\ B.f = "B" /\ A.p[2] = R1 /\ B.p[2] = R1 /\ A.p[3] = B.p[3] /\ A.p[4] = B.p[4] /\ RLt(A.p[4], R0) ->
         NLaw("B", <<RAdd(A.p[1], B.p[1]), R1, A.p[3], A.p[4]>>, A.a, RNeg1)
    [] A.f = "B" /\ B.f = "B" /\ A.p[1] = R1 /\ B.p[1] = R1 /\ A.p[3] = B.p[3] /\ A.p[4] = R1 /\ B.p[4] = R1 ->
         NLaw("B", <<R1, RAdd(A.p[2], B.p[2]), A.p[3], R1>>, A.a, RNeg1)
    [] OTHER -> Bad
  ELSE Bad
MinL(A, B) == LET M == MaxL(Neg(A), Neg(B)) IN
  IF A.w = "log" \/ B.w = "log" THEN
       (IF A.w = "log" /\ B.w = "log" /\ A.a = R0 /\ B.a = R0
        THEN LET K == MaxL(Neg([A EXCEPT !.w = "id"]), Neg([B EXCEPT !.w = "id"])) IN
             IF Ok(K) THEN Wrap("log", Neg(K)) ELSE Bad
        ELSE Bad)
  ELSE IF Ok(M) THEN Neg(M) ELSE Bad
(* S - X for a beta law on [0,S]: the reflected beta law *)
Reflect(L) == IF Pure(L) /\ L.f = "B" /\ L.p[4] = R1 /\ L.b = RNeg1 /\ L.a = L.p[3]
              THEN NLaw("B", <<L.p[2], L.p[1], L.p[3], R1>>, R0, R1)
              ELSE IF Pure(L) /\ L.f = "BI" /\ L.b = RNeg1 /\ L.a = L.p[1]
              THEN Law0("BI", <<L.p[1], RSub(R1, L.p[2])>>) ELSE L

(* -------------------------------- moments ------------------------------- *)
(* [t |-> "f", v] finite, "i" infinite or undefined, "u" not rational *)
Fin(v) == [t |-> "f", v |-> v]
InfM == [t |-> "i", v |-> R0]
Unk == [t |-> "u", v |-> R0]
RECURSIVE Rising(_, _)
Rising(k, n) == IF n = 0 THEN R1 ELSE RMul(k, Rising(RAdd(k, R1), n - 1))
RECURSIVE FallingBelow(_, _)          \* (k-1)(k-2)..(k-n)
FallingBelow(k, n) == IF n = 0 THEN R1 ELSE RMul(RSub(k, RI(n)), FallingBelow(k, n - 1))
MG(k, n) == IF n >= 0 THEN Fin(Rising(k, n)) ELSE IF RLe(k, RI(-n)) THEN InfM ELSE Fin(RInv(FallingBelow(k, -n)))
MB(a, b, n) == IF n >= 0 THEN Fin(RDiv(Rising(a, n), Rising(RAdd(a, b), n)))
               ELSE IF RLe(a, RI(-n)) THEN InfM ELSE Fin(RDiv(FallingBelow(RAdd(a, b), -n), FallingBelow(a, -n)))
MR(a, b, n) == LET x == MG(a, n)  y == MG(b, -n) IN IF x.t = "i" \/ y.t = "i" THEN InfM ELSE Fin(RMul(x.v, y.v))
Scl(m, s) == IF m.t = "f" THEN Fin(RMul(m.v, s)) ELSE m
(* raw moments 1, 2 of the canonical kind *)
Base(L, j) ==
  CASE L.f = "N" -> Fin(IF j = 1 THEN R0 ELSE L.p[1])
    [] L.f = "C" -> InfM
    [] L.f = "T" -> IF RLe(L.p[1], RI(j)) THEN InfM ELSE Fin(IF j = 1 THEN R0 ELSE RDiv(L.p[1], RSub(L.p[1], RI(2))))
    [] L.f = "A" -> Fin(IF j = 1 THEN RSub(L.p[1], L.p[2])
                        ELSE RAdd(RAdd(RSq(L.p[1]), RSq(L.p[2])), RSq(RSub(L.p[1], L.p[2]))))
    [] L.f = "SC" -> Fin(IF j = 1 THEN R0 ELSE RDiv(RSq(L.p[1]), RI(4)))
    [] L.f = "NN" -> Fin(IF j = 1 THEN R0 ELSE L.p[1])
    [] L.f = "K" -> Fin(IF j = 1 THEN L.p[1] ELSE RSq(L.p[1]))
    [] L.f = "GE" -> LET m == RDiv(RSub(R1, L.p[1]), L.p[1]) IN Fin(IF j = 1 THEN m ELSE RAdd(RDiv(m, L.p[1]), RSq(m)))
    [] L.f = "NCC" -> LET m == RAdd(L.p[1], L.p[2]) IN Fin(IF j = 1 THEN m ELSE RAdd(RMul(RI(2), RAdd(m, L.p[2])), RSq(m)))
    [] L.f = "TZ" -> LET u == RDiv(RI(2), RSub(RAdd(L.p[4], L.p[3]), RAdd(L.p[1], L.p[2])))
                         (* difference quotients of x^3 and x^4 *)
                         q3(x, y) == RAdd(RAdd(RSq(x), RMul(x, y)), RSq(y))
                         q4(x, y) == RMul(RAdd(x, y), RAdd(RSq(x), RSq(y)))
                     IN IF j = 1 THEN Fin(RMul(RDiv(u, RI(6)), RSub(q3(L.p[3], L.p[4]), q3(L.p[1], L.p[2]))))
                        ELSE Fin(RMul(RDiv(u, RI(12)), RSub(q4(L.p[3], L.p[4]), q4(L.p[1], L.p[2]))))
    [] L.f = "P" -> Fin(IF j = 1 THEN L.p[1] ELSE RAdd(L.p[1], RSq(L.p[1])))
    [] L.f = "BI" -> LET m == RMul(L.p[1], L.p[2]) IN Fin(IF j = 1 THEN m ELSE RAdd(RMul(m, RSub(R1, L.p[2])), RSq(m)))
    [] L.f = "MO" -> IF j = 1 THEN Fin(R0) ELSE Unk
    [] L.f \in {"G", "B", "R"} ->
       (LET q == RDiv(RI(j), Pw(L)) IN
       IF ~IsInt(q) \/ AbsI(q[1]) > 4 THEN Unk
       ELSE LET n == q[1] IN
            CASE L.f = "G" -> Scl(MG(L.p[1], n), RPowI(L.p[2], n))
              [] L.f = "B" -> Scl(MB(L.p[1], L.p[2], n), RPowI(L.p[3], n))
              [] L.f = "R" -> Scl(MR(L.p[1], L.p[2], n), RPowI(L.p[3], n)))
    [] OTHER -> Unk
Mean(L) == IF L.w # "id" THEN Unk ELSE
           LET m == Base(L, 1) IN IF m.t = "f" THEN Fin(RAdd(L.a, RMul(L.b, m.v))) ELSE m
Var(L) == IF L.w # "id" THEN Unk ELSE
          LET m == Base(L, 1)  s == Base(L, 2) IN
          IF m.t = "f" /\ s.t = "f" THEN Fin(RMul(RSq(L.b), RSub(s.v, RSq(m.v))))
          ELSE IF m.t = "i" \/ s.t = "i" THEN InfM ELSE Unk
M2L(L) == LET m == Mean(L)  v == Var(L) IN IF m.t = "f" /\ v.t = "f" THEN Fin(RAdd(v.v, RSq(m.v))) ELSE IF v.t = "u" THEN Unk ELSE v

ValidParams(L) == CASE L.f \in {"N", "C", "T", "SC", "P", "NN", "MO"} -> RLt(R0, L.p[1])
                    [] L.f = "A" -> RLt(R0, L.p[1]) /\ RLt(R0, L.p[2])
                    [] L.f = "G" -> RLt(R0, L.p[1]) /\ RLt(R0, L.p[2]) /\ L.p[3] # R0
                    [] L.f \in {"B", "R"} -> RLt(R0, L.p[1]) /\ RLt(R0, L.p[2]) /\ RLt(R0, L.p[3]) /\ L.p[4] # R0
                    [] L.f = "UP" -> RLt(L.p[1], L.p[2])
                    [] L.f = "TZ" -> RLe(L.p[1], L.p[2]) /\ RLe(L.p[2], L.p[3]) /\ RLe(L.p[3], L.p[4]) /\ RLt(L.p[1], L.p[4])
                    [] L.f = "GE" -> RLt(R0, L.p[1]) /\ RLe(L.p[1], R1)
                    [] L.f = "K" -> TRUE
                    [] L.f \in {"NCT", "NCC", "NCB", "NCF"} -> RLt(R0, L.p[1])
                    [] L.f = "BI" -> RLe(R0, L.p[2]) /\ RLe(L.p[2], R1) /\ IsInt(L.p[1])
                    [] OTHER -> FALSE
=============================================================================
