----------------------------- MODULE Catalogue -----------------------------
(* C07.  The catalogue of named distributions.  Instances are created with   *)
(* any valid parameters, in any order, interleaved with questions about      *)
(* them; the law of an instance is the documented law of its family with the *)
(* parameters it was created with, whatever was created or asked before or   *)
(* after.                                                                    *)
EXTENDS Families, Emit
CONSTANTS MaxObj, MaxHist, Grid, PairFams

q(n, d) == RNorm(n, d)
z(n) == RI(n)
(* parameter choices of a family; "small" holds the ones every run uses, "large" adds more *)
Small(n) ==
  CASE n = "Normal"      -> {<<z(0), z(1)>>, <<z(3), q(1, 100)>>, <<z(-5), z(40)>>, <<q(1, 1000), q(1, 1000)>>, <<z(0), z(1000)>>, <<z(10000), z(1)>>, <<z(1), q(1, 10000)>>, <<z(-300), z(1)>>}
    [] n = "Uniform"     -> {<<z(0), z(1)>>, <<z(-3), z(2)>>, <<z(100), q(1001, 10)>>, <<q(-1, 1000), z(0)>>, <<z(-2000), z(1000)>>}
    [] n = "UniformPi"   -> {<<RNeg(Half), Half>>}
    [] n = "Trapezoidal" -> {<<z(0), z(0), z(1), z(1)>>, <<z(-1), z(0), z(2), z(5)>>, <<z(0), z(1), z(1), z(3)>>, <<z(0), z(0), z(0), z(1)>>, <<z(-2), z(1), z(1), z(1)>>, <<z(10), z(20), z(40), z(41)>>}
    [] n = "Cauchy"      -> {<<z(1), z(0)>>, <<q(1, 2), z(3)>>, <<z(20), z(-1)>>, <<q(1, 1000), z(0)>>, <<z(1000), z(5)>>, <<q(1, 10), z(10000)>>, <<z(1), z(-300)>>}
    [] n = "ChiSquare"   -> {<<z(1)>>, <<z(2)>>, <<z(3)>>, <<z(4)>>, <<z(20)>>, <<z(21)>>, <<z(150)>>, <<q(1, 2)>>, <<q(3, 2)>>, <<q(5, 2)>>}
    [] n = "Exponential" -> {<<z(1)>>, <<z(3)>>, <<q(1, 5)>>, <<z(1000)>>, <<q(1, 1000)>>}
    [] n = "Gamma"       -> {<<z(2), z(2)>>, <<z(1), z(1)>>, <<z(1), z(100)>>, <<q(1, 2), z(2)>>, <<q(1, 2), q(1, 1000)>>, <<q(1, 4), z(1)>>, <<q(3, 2), z(1)>>, <<z(5), q(1, 3)>>, <<z(40), z(1)>>, <<z(3), z(1000)>>, <<z(300), z(1)>>}
    [] n = "Beta"        -> {<<z(1), z(1)>>, <<z(1), z(3)>>, <<z(3), z(1)>>, <<Half, Half>>, <<Half, z(3)>>, <<z(2), Half>>, <<z(2), z(2)>>, <<z(8), z(5)>>, <<q(3, 2), q(5, 2)>>, <<q(1, 5), q(9, 10)>>, <<z(1), Half>>, <<q(1, 10), z(1)>>, <<z(40), z(60)>>, <<z(100), z(2)>>, <<z(2), z(400)>>}
    [] n = "Pareto"      -> {<<z(1), z(1)>>, <<z(3), z(1)>>, <<q(3, 2), z(2)>>, <<Half, z(1)>>, <<z(5), q(1, 100)>>, <<z(2), z(1000)>>, <<z(4), q(1, 2)>>, <<z(20), z(1)>>, <<z(100), z(1)>>}
    [] n = "Levy"        -> {<<z(1), z(0)>>, <<z(4), z(-1)>>, <<q(1, 4), z(10)>>, <<q(1, 1000), z(0)>>, <<z(1), z(10000)>>}
    [] n = "Laplace"     -> {<<z(1), z(0)>>, <<z(2), z(5)>>, <<q(1, 10), z(-1)>>, <<z(1000), z(1)>>, <<q(1, 1000), z(0)>>, <<z(1), z(-10000)>>, <<z(5), z(300)>>}
    [] n = "StudentT"    -> {<<z(1)>>, <<z(2)>>, <<z(3)>>, <<z(5)>>, <<z(30)>>, <<Half>>, <<q(5, 2)>>, <<z(200)>>}
    [] n = "Semicircle"  -> {<<z(1)>>, <<q(5, 2)>>, <<q(1, 1000)>>, <<z(300)>>}
    [] n = "F"           -> {<<z(1), z(1)>>, <<z(2), z(2)>>, <<z(2), z(5)>>, <<z(1), z(8)>>, <<z(4), z(5)>>, <<z(3), z(7)>>, <<z(10), z(20)>>, <<z(2), z(40)>>, <<z(5), z(1)>>, <<z(40), z(60)>>, <<z(6), z(6)>>}
    [] n = "Weibull"     -> {<<z(3), z(1)>>, <<z(1), z(1)>>, <<z(1), z(4)>>, <<z(2), z(5)>>, <<Half, z(1)>>, <<Half, z(9)>>, <<q(3, 2), z(2)>>, <<z(5), q(1, 10)>>, <<z(2), q(1, 1000)>>, <<z(10), z(1)>>, <<z(1), q(1, 1000)>>}
    [] n = "Gumbel"      -> {<<z(0), z(1)>>, <<z(3), z(5)>>, <<z(-100), z(2)>>, <<z(0), q(1, 1000)>>, <<z(10000), z(1)>>, <<z(30), q(1, 20)>>}
    [] n = "Frechet"     -> {<<z(2), z(1), z(0)>>, <<z(1), z(1), z(0)>>, <<z(3), z(2), z(5)>>, <<Half, z(1), z(0)>>, <<z(5), q(1, 10), z(-1)>>, <<z(10), z(1), z(0)>>, <<z(2), z(1), z(-10000)>>}
    [] n = "LogLogistic" -> {<<z(1), z(1)>>, <<z(2), z(1)>>, <<z(3), z(2)>>, <<Half, z(1)>>, <<q(3, 2), z(3)>>, <<z(5), q(1, 10)>>, <<q(5, 2), z(1)>>, <<z(10), z(100)>>}
    [] n = "Mollifier"   -> {<<z(1)>>, <<q(1, 100)>>, <<z(20)>>}
    [] n = "Poisson"     -> {<<z(1)>>, <<q(1, 10)>>, <<z(7)>>, <<q(7, 2)>>, <<z(30)>>}
    [] n = "Binomial"    -> {<<z(1), Half>>, <<z(10), q(1, 5)>>, <<z(7), q(9, 10)>>, <<z(5), z(0)>>, <<z(5), z(1)>>, <<z(40), q(1, 3)>>, <<z(0), q(1, 3)>>}
    [] n = "Bernoulli"   -> {<<Half>>, <<q(1, 10)>>, <<q(3, 4)>>, <<z(1)>>, <<z(0)>>}
    [] n = "Const"       -> {<<z(0)>>, <<q(-7, 2)>>, <<z(1000)>>}
    [] n \in {"Zero", "One"} -> {<<>>}
    [] n = "FunPower"    -> {<<z(1), z(1)>>, <<z(2), z(1)>>, <<z(3), z(2)>>, <<z(5), q(1, 100)>>}
    [] n = "FunExp"      -> {<<z(1), z(0)>>, <<z(2), z(-3)>>, <<q(1, 10), z(5)>>}
    [] n = "FunNormal"   -> {<<z(0), z(1)>>, <<z(7), z(2)>>}
    [] n = "FunPareto"   -> {<<z(1)>>, <<z(3)>>}
    [] n = "FunArcsine"  -> {<<>>}
    [] n = "TruncPoisson" -> {<<z(2)>>, <<z(9)>>}
    [] n = "TruncGeometric" -> {<<Half>>, <<q(3, 4)>>}
    [] n = "NoncentralT" -> {<<z(2), z(0)>>, <<z(2), z(1)>>, <<z(5), z(-2)>>, <<z(10), Half>>}
    [] n = "NoncentralChiSquare" -> {<<z(1), z(1)>>, <<z(2), z(1)>>, <<z(3), z(0)>>, <<z(5), z(4)>>}
    [] n = "NoncentralBeta" -> {<<z(1), z(1), z(1)>>, <<z(2), z(3), z(0)>>, <<z(2), z(3), z(2)>>}
    [] n = "NoncentralF" -> {<<z(2), z(5), z(1)>>, <<z(3), z(8), z(0)>>, <<z(4), z(10), z(3)>>}
Large(n) ==
  CASE n = "Normal"      -> {<<m, s>> : m \in {z(0), z(1), z(-1000)}, s \in {q(1, 50), q(1, 3), z(2), z(77)}}
    [] n = "Uniform"     -> {<<a, RAdd(a, w)>> : a \in {z(-7), q(1, 3), z(1000)}, w \in {q(1, 100), z(7), z(500)}}
    [] n = "Trapezoidal" -> {<<z(0), a, RAdd(a, b), RAdd(RAdd(a, b), c)>> : a \in {z(0), Half, z(9)}, b \in {z(0), z(2)}, c \in {q(1, 10), z(4)}}
    [] n = "Cauchy"      -> {<<g, c>> : g \in {q(1, 20), z(3), z(100)}, c \in {z(0), z(-4), z(50)}}
    [] n = "ChiSquare"   -> {<<d>> : d \in {z(5), z(6), z(7), z(8), z(10), z(13), z(50), z(400), q(7, 2), q(1, 10), q(11, 10), q(41, 2)}}
    [] n = "Exponential" -> {<<l>> : l \in {z(2), z(10), q(1, 2), q(1, 30), z(50)}}
    [] n = "Gamma"       -> {<<k, t>> : k \in {q(1, 10), q(9, 10), z(1), q(6, 5), q(5, 2), z(4), z(7), q(15, 2), z(20), z(100)}, t \in {q(1, 20), z(1), z(30)}}
    [] n = "Beta"        -> {<<a, b>> : a \in {q(3, 10), q(3, 4), z(1), q(5, 4), z(3), z(6), z(20)}, b \in {q(3, 10), Half, z(1), q(7, 4), z(4), z(9), z(30)}}
    [] n = "Pareto"      -> {<<a, x>> : a \in {q(1, 5), z(1), z(2), q(5, 2), z(8)}, x \in {q(1, 10), z(1), z(3), z(50)}}
    [] n = "Levy"        -> {<<c, x>> : c \in {q(1, 50), z(9), z(100)}, x \in {z(0), z(-20), z(3)}}
    [] n = "Laplace"     -> {<<l, m>> : l \in {q(1, 3), z(7), z(40)}, m \in {z(0), z(-9), z(100)}}
    [] n = "StudentT"    -> {<<d>> : d \in {z(4), z(6), z(7), z(10), z(60), q(3, 2), q(9, 10), q(7, 2)}}
    [] n = "Semicircle"  -> {<<r>> : r \in {q(1, 3), z(2), z(7)}}
    [] n = "F"           -> {<<a, b>> : a \in {z(1), z(2), z(3), z(5), z(8), z(20)}, b \in {z(2), z(3), z(6), z(12), z(30)}}
    [] n = "Weibull"     -> {<<k, l>> : k \in {q(2, 3), q(4, 5), z(1), q(5, 4), z(2), q(5, 2), z(4), z(7)}, l \in {q(1, 20), z(1), z(30)}}
    [] n = "Gumbel"      -> {<<m, s>> : m \in {z(0), z(8), z(-30)}, s \in {q(1, 10), z(2), z(60)}}
    [] n = "Frechet"     -> {<<a, s, m>> : a \in {q(3, 4), q(3, 2), z(4), z(7)}, s \in {q(1, 10), z(3)}, m \in {z(0), z(2), z(-30)}}
    [] n = "LogLogistic" -> {<<k, s>> : k \in {q(3, 4), q(5, 4), q(7, 2), z(4), z(7)}, s \in {q(1, 20), z(1), z(30)}}
    [] n = "Mollifier"   -> {<<e>> : e \in {q(1, 3), z(2), z(100)}}
    [] n = "Poisson"     -> {<<l>> : l \in {q(1, 100), q(1, 2), z(2), z(4), z(15), z(60)}}
    [] n = "Binomial"    -> {<<k, p>> : k \in {z(2), z(3), z(20), z(100)}, p \in {q(1, 100), q(1, 4), Half, q(19, 20)}}
    [] n = "Bernoulli"   -> {<<q(1, 3)>>, <<q(99, 100)>>}
    [] n = "FunPower"    -> {<<z(4), z(7)>>, <<z(2), z(1000)>>}
    [] n = "TruncPoisson" -> {<<q(1, 2)>>, <<z(4)>>}
    [] n = "TruncGeometric" -> {<<q(7, 8)>>}
    [] n = "NoncentralT" -> {<<d, m>> : d \in {z(1), z(3), z(8)}, m \in {q(-1, 2), z(2)}}
    [] n = "NoncentralChiSquare" -> {<<d, l>> : d \in {z(1), z(2), z(4), z(9)}, l \in {q(1, 2), z(2), z(9)}}
    [] n = "NoncentralBeta" -> {<<a, b, l>> : a \in {z(1), z(3)}, b \in {z(1), z(2)}, l \in {q(1, 2), z(4)}}
    [] n = "NoncentralF" -> {<<a, b, l>> : a \in {z(1), z(5)}, b \in {z(3), z(12)}, l \in {q(1, 2), z(2)}}
    [] OTHER -> {}
Params(n) == IF Grid = "large" THEN Small(n) \cup Large(n) ELSE Small(n)
Fams == {"Normal", "Uniform", "UniformPi", "Trapezoidal", "Cauchy", "ChiSquare", "Exponential", "Gamma", "Beta", "Pareto", "Levy",
         "Laplace", "StudentT", "Semicircle", "F", "Weibull", "Gumbel", "Frechet", "LogLogistic", "Mollifier", "Poisson", "Binomial",
         "Bernoulli", "Const", "Zero", "One", "FunPower", "FunExp", "FunNormal", "FunPareto", "FunArcsine", "TruncPoisson",
         "TruncGeometric", "NoncentralT", "NoncentralChiSquare", "NoncentralBeta", "NoncentralF"}
(* two parameter choices of a family, for sessions with two instances *)
Two(n) == LET a == CHOOSE x \in Small(n) : TRUE IN
          IF Cardinality(Small(n)) = 1 THEN {a} ELSE {a, CHOOSE x \in Small(n) \ {a} : TRUE}
Asks == {"law", "rest"}

VARIABLES objs, hist
vars == <<objs, hist>>
Init == objs = <<>> /\ hist = <<>>
Create(n, p) == /\ Len(objs) < MaxObj /\ Len(hist) < MaxHist
                /\ (objs = <<>> \/ (n \in PairFams /\ objs[1][1] = n /\ objs[1][2] \in Two(n) /\ p \in Two(n))) = TRUE
                /\ objs' = Append(objs, <<n, p>>)
                /\ hist' = Append(hist, <<"new", Len(objs) + 1>>)
Ask(i, w) == /\ Len(hist) < MaxHist /\ MaxObj > 1 /\ objs[1][1] \in PairFams /\ objs[1][2] \in Two(objs[1][1])
             /\ hist[Len(hist)] # <<w, i>>
             /\ hist' = Append(hist, <<w, i>>) /\ UNCHANGED objs
Next == \/ \E n \in Fams : \E p \in Params(n) : Create(n, p)
        \/ \E i \in 1..Len(objs), w \in Asks : Ask(i, w)
Spec == Init /\ [][Next]_vars

LawOf(i) == Leaf(objs[i][1], objs[i][2])
(* every parameter choice denotes a proper law, and its variance is not negative *)
Proper == \A i \in 1..Len(objs) :
            LET L == LawOf(i)  v == Var(L)  m == Mean(L) IN
            /\ ValidParams(L)
            /\ v.t # "f" \/ RLe(R0, v.v)
            /\ v.t # "f" \/ m.t = "f"
(* asking changes nothing, creating leaves the others alone *)
Stable == [][\A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
Rec(i) == [n |-> objs[i][1], q |-> objs[i][2], L |-> LawOf(i), mean |-> Mean(LawOf(i)), var |-> Var(LawOf(i))]
EmitInv == \/ hist = <<>>
           \/ (Len(hist) = 1 /\ Emit([kind |-> "one", o |-> Rec(1)]))
           \/ (Len(hist) # MaxHist \/ Len(objs) < 2)
           \/ Emit([kind |-> "two", os |-> [i \in 1..Len(objs) |-> Rec(i)], hist |-> hist])
=============================================================================
