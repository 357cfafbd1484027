----------------------------- MODULE Transform -----------------------------
(* C04.  Functions of one variable.  A leaf law (GridLaw) is sent through a  *)
(* chain of functions.  The law is kept as a list of points of the current   *)
(* variable with its cumulative probabilities F(x) = P(X<=x), L(x) = P(X<x). *)
(*   stage A  the whole law on the quarter grid (neg, abs, shifts, square)   *)
(*   stage B  points are rational (scaling, reciprocal, integer powers)      *)
(*   stage C  the point is  g(q)  for the rational q of the list and the     *)
(*            chain g of real functions; only g's direction, domain and the  *)
(*            sign of its values matter to the law, and those are tracked    *)
(* sin and cos end a chain: every point of the image has two preimages, q    *)
(* and c - q with c = pi or 2 pi, and its probability is a signed sum of F   *)
(* and L at these (the driver interpolates the piecewise linear F).          *)
EXTENDS GridLaw, Emit
CONSTANTS Leaves, Ops, MaxOps
VARIABLE s

Pts(G) == [n \in 1..Len(G.F) |-> <<RNorm(G.lo + n - 1, 4), G.F[n], G.L[n]>>]
Rev(p) == [n \in 1..Len(p) |-> p[Len(p) + 1 - n]]
MapQ(p, g(_)) == [n \in 1..Len(p) |-> <<g(p[n][1]), p[n][2], p[n][3]>>]
Flip(p) == [n \in 1..Len(p) |-> LET x == p[Len(p) + 1 - n] IN <<x[1], RComp(x[3]), RComp(x[2])>>]
(* cumulative probabilities at zero for rational points; <<>> when the list does not tell *)
AtZero(p) == LET I == {n \in 1..Len(p) : p[n][1] = R0}
                 B == {n \in 1..Len(p) : RLt(p[n][1], R0)}
             IN IF I # {} THEN LET n == CHOOSE k \in I : TRUE IN <<p[n][2], p[n][3]>>
                ELSE IF B = {} THEN <<R0, R0>> ELSE IF Cardinality(B) = Len(p) THEN <<R1, R1>>
                ELSE LET n == Cardinality(B) IN IF p[n][2] = p[n + 1][3] THEN <<p[n][2], p[n][2]>> ELSE <<>>
(* sign of the values: P positive, Z nonnegative with an atom at 0, N negative, M mixed *)
ClsOf(p) == LET z == AtZero(p)
            IN IF z = <<>> THEN "M" ELSE IF z = <<R0, R0>> THEN "P" ELSE IF z[2] = R0 THEN "Z"
               ELSE IF z = <<R1, R1>> THEN "N" ELSE "M"
Inv(p) ==
  LET z == AtZero(p)
      neg == SelectSeq(p, LAMBDA x : RLt(x[1], R0))
      pos == SelectSeq(p, LAMBDA x : RLt(R0, x[1]))
      N(x) == <<RInv(x[1]), RSub(z[2], x[3]), RSub(z[2], x[2])>>
      P(x) == <<RInv(x[1]), RAdd(z[1], RComp(x[3])), RAdd(z[1], RComp(x[2]))>>
      a == [n \in 1..Len(neg) |-> N(neg[Len(neg) + 1 - n])]
      b == [n \in 1..Len(pos) |-> P(pos[Len(pos) + 1 - n])]
  IN a \o <<<<R0, z[1], z[1]>>>> \o b

ToB(x) == IF x.st = "A" THEN [x EXCEPT !.st = "B", !.p = Pts(x.G)] ELSE x
(* the closed hull of the values, apart from zero itself, stays away from zero *)
Apart(p) == \E n \in 1..Len(p) : \/ (RLt(R0, p[n][1]) /\ p[n][2] = R0)
                                  \/ (RLt(p[n][1], R0) /\ p[n][3] = R1)
(* k: order of the root singularity which powers leave at zero; ls: it has   *)
(* been moved off zero, where doubles resolve it only to eps^(1/k)           *)
(* a law on one side of zero: drop listed points of the other side *)
OnSide(p, c) == CASE c = "N" -> SelectSeq(p, LAMBDA x : RLt(x[1], R0))
                  [] c = "P" -> SelectSeq(p, LAMBDA x : RLt(R0, x[1]))
                  [] c = "Z" -> SelectSeq(p, LAMBDA x : RLe(R0, x[1]))
                  [] OTHER -> p
Small(p) == \A n \in 1..Len(p) : RLe(RAbs(p[n][1]), RI(6))
ToC(x) == LET y == ToB(x) IN IF y.st = "B" THEN [y EXCEPT !.st = "C", !.cls = ClsOf(y.p), !.p = OnSide(y.p, ClsOf(y.p)), !.big = ~Small(y.p)] ELSE y
Fin(x, t, p) == [x EXCEPT !.e = Append(@, t), !.p = p]
Cls(x) == IF x.st = "C" THEN x.cls ELSE ClsOf(ToB(x).p)
NoZero(x) == IF x.st = "C" THEN x.cls \in {"P", "N"} ELSE LET z == AtZero(ToB(x).p) IN z # <<>> /\ z[1] = z[2]

PowK(x, k) == IF ~x.hv /\ x.st # "C" /\ Apart(ToB(x).p) THEN x.k ELSE x.k * k
QS(q) == IF q[2] = 1 THEN ToString(q[1]) ELSE ToString(q[1]) \o "/" \o ToString(q[2])
Tok(t) == IF Len(t) = 1 THEN t[1] ELSE t[1] \o ":" \o QS(t[2])
(* numbers in tokens are rationals; on stage A shifts move by whole half units *)
Quarter(c) == (4 * c[1]) \div c[2]
HalfUnit(c) == c[2] \in {1, 2}

Ceil(c) == (c[1] + c[2] - 1) \div c[2]
NegCls(c) == CASE c = "P" -> "N" [] c = "N" -> "P" [] OTHER -> "M"
ScaleC(x, t, c) ==
  LET y == Fin(x, Tok(t), IF RSgn(c) > 0 THEN x.p ELSE Flip(x.p))
  IN [y EXCEPT !.ch = Append(@, <<"mul", c>>), !.k = @ * Ceil(RAbs(c)), !.cls = IF RSgn(c) > 0 THEN @ ELSE NegCls(@)]
Scale(x, t, c) ==
  IF x.st = "C" THEN ScaleC(x, t, c)
  ELSE LET y == ToB(x) IN Fin(y, Tok(t), MapQ(IF RSgn(c) > 0 THEN y.p ELSE Flip(y.p), LAMBDA q : RMul(q, c)))
Shift(x, t, c) ==
  CASE x.st = "A" /\ HalfUnit(c) -> [x EXCEPT !.e = Append(@, Tok(t)), !.G = GShift(@, Quarter(c))]
    [] x.st = "C" -> [Fin(x, Tok(t), x.p) EXCEPT !.ch = Append(@, <<"add", c>>),
                        !.cls = IF c = R0 THEN @ ELSE IF (@ \in {"P", "Z"} /\ RSgn(c) > 0) THEN "P"
                                ELSE IF @ = "N" /\ RSgn(c) < 0 THEN "N" ELSE "U"]
    [] OTHER -> LET y == ToB(x) IN Fin(y, Tok(t), MapQ(y.p, LAMBDA q : RAdd(q, c)))
Neg(x, t) == IF x.st = "A" THEN [x EXCEPT !.e = Append(@, Tok(t)), !.G = GNeg(@)] ELSE Scale(x, t, RI(-1))
Recip(x, t) ==
  IF x.st = "C"
  THEN [Fin(x, Tok(t), Flip(x.p)) EXCEPT !.ch = Append(@, <<"inv", R1>>), !.big = TRUE]
  ELSE LET y == ToB(x) IN [Fin(y, Tok(t), Inv(y.p)) EXCEPT !.hv = ~Apart(y.p)]
Square(x, t) ==
  CASE x.st = "A" -> [x EXCEPT !.st = "B", !.e = Append(@, Tok(t)), !.p = MapQ(Pts(GAbs(x.G)), LAMBDA q : RSq(q)), !.k = PowK(x, 2)]
    [] x.st = "B" -> [Fin(x, Tok(t), MapQ(IF Cls(x) = "N" THEN Flip(OnSide(x.p, "N")) ELSE OnSide(x.p, Cls(x)), LAMBDA q : RSq(q))) EXCEPT !.k = PowK(x, 2)]
    [] OTHER -> [Fin(x, Tok(t), IF x.cls = "N" THEN Flip(x.p) ELSE x.p)
                   EXCEPT !.k = PowK(x, 2), !.ch = Append(@, <<"sqr", R1>>), !.cls = IF @ = "N" THEN "P" ELSE @]
Abs(x, t) ==
  IF x.st = "A" THEN [x EXCEPT !.e = Append(@, Tok(t)), !.G = GAbs(@)]
  ELSE IF Cls(x) = "N" THEN Scale(x, t, RI(-1)) ELSE Fin(x, Tok(t), x.p)
(* a monotone real function g; up: increasing *)
Real(x, t, f, c, up, cls, big) ==
  LET y == ToC(x)
  IN [Fin(y, Tok(t), IF up THEN y.p ELSE Flip(y.p)) EXCEPT !.ch = Append(@, <<f, c>>), !.cls = cls, !.big = big, !.hv = FALSE,
             !.ls = @ \/ x.k > 1 \/ (f = "pow" /\ x.st = "C" /\ RLt(R1, RAbs(c))),
             !.k = CASE f = "pow" -> PowK(x, Ceil(RAbs(c))) [] f = "log" -> PowK(x, 2) [] OTHER -> x.k]
IPow3(x, t, k) == LET y == ToB(x) IN [Fin(y, Tok(t), MapQ(y.p, LAMBDA q : RPow(q, k))) EXCEPT !.k = PowK(x, k)]

Tame(p, m) == \A n \in 1..Len(p) : AbsI(p[n][1][1]) <= m /\ p[n][1][2] <= m
Big(x) == x.hv \/ IF x.st = "C" THEN x.big ELSE ~Small(ToB(x).p)
Within(x, c) == x.st # "C" /\ \A n \in 1..Len(ToB(x).p) : RLe(RAbs(ToB(x).p[n][1]), c)
Positive(x) == Cls(x) = "P"
Ok(x, t) ==
  CASE t[1] \in {"inv", "rdivc"} -> NoZero(x)
    [] t[1] = "log" -> Positive(x)
    [] t[1] = "sqrt" -> Positive(x)
    [] t[1] = "powc" -> t[2] = R1 \/ (t[2] = RI(-1) /\ NoZero(x)) \/ (Positive(x) /\ ~Big(x) /\ (t[2] = RI(3) /\ x.st = "B" => Tame(x.p, 100)))
    [] t[1] = "sqr" -> x.st = "A" \/ (Cls(x) \in {"P", "N", "Z"} /\ (x.st = "B" => Tame(x.p, 200)))
    [] t[1] = "abs" -> x.st = "A" \/ Cls(x) \in {"P", "N", "Z"}
    [] t[1] \in {"exp", "rpow", "tanh", "sigmoid"} -> ~Big(x)
    [] t[1] = "tan" -> (Within(x, <<3, 2>>) /\ ~x.hv) \/ (x.st = "C" /\ x.ch[Len(x.ch)][1] \in {"tanh", "sigmoid"})
    [] t[1] = "sign" -> x.st # "C" /\ AtZero(ToB(x).p) # <<>>
    [] OTHER -> TRUE
Moved(x, y) == [y EXCEPT !.ls = @ \/ x.k > 1]
Up(x) == IF RSgn(x) > 0 THEN TRUE ELSE FALSE
Apply(x, t) ==
  CASE t[1] = "neg" -> Neg(x, t)
    [] t[1] = "abs" -> Abs(x, t)
    [] t[1] \in {"addc", "raddc"} -> Moved(x, Shift(x, t, t[2]))
    [] t[1] = "subc" -> Moved(x, Shift(x, t, RNeg(t[2])))
    [] t[1] = "rsubc" -> Moved(x, [Shift(Neg(x, t), t, t[2]) EXCEPT !.e = Append(x.e, Tok(t))])
    [] t[1] \in {"mulc", "rmulc"} -> IF t[2] = R1 THEN [x EXCEPT !.e = Append(@, Tok(t))] ELSE Scale(x, t, t[2])
    [] t[1] = "divc" -> IF t[2] = R1 THEN [x EXCEPT !.e = Append(@, Tok(t))] ELSE Scale(x, t, RInv(t[2]))
    [] t[1] = "inv" -> Recip(x, t)
    [] t[1] = "rdivc" -> [Scale(Recip(x, t), t, t[2]) EXCEPT !.e = Append(x.e, Tok(t))]
    [] t[1] = "sqr" -> Square(x, t)
    [] t[1] = "powc" -> IF t[2] = R1 THEN [x EXCEPT !.e = Append(@, Tok(t))]
                        ELSE IF t[2] = RI(-1) THEN Recip(x, t)
                        ELSE IF x.st # "C" /\ t[2] = RI(3) THEN IPow3(x, t, 3)
                        ELSE Real(x, t, "pow", t[2], Up(t[2]), "P", TRUE)
    [] t[1] = "exp" -> Real(x, t, "exp", R1, TRUE, "P", TRUE)
    [] t[1] = "rpow" -> Real(x, t, "rpow", t[2], RLt(R1, t[2]), "P", TRUE)
    [] t[1] = "log" -> Real(x, t, "log", R1, TRUE, "U", FALSE)
    [] t[1] = "sqrt" -> Real(x, t, "pow", <<1, 2>>, TRUE, "P", Big(x))
    [] t[1] = "atan" -> Real(x, t, "atan", R1, TRUE, Cls(x), FALSE)
    [] t[1] = "tanh" -> Real(x, t, "tanh", R1, TRUE, Cls(x), FALSE)
    [] t[1] = "sigmoid" -> Real(x, t, "sigmoid", R1, TRUE, "P", FALSE)
    [] t[1] = "tan" -> Real(x, t, "tan", R1, TRUE, Cls(x), TRUE)
    [] t[1] = "sign" -> LET y == ToB(x)  z == AtZero(y.p)
                        IN Fin(y, Tok(t), <<<<RI(-2), R0, R0>>, <<RI(-1), z[2], R0>>, <<R0, z[1], z[2]>>, <<R1, R1, z[1]>>, <<RI(2), R1, R1>>>>)

Init == s = [n |-> 0]
Start(n) == s' = [n |-> 1, st |-> "A", e |-> <<n>>, G |-> GOf(LeafLaw(n)), p |-> <<>>, ch |-> <<>>, cls |-> "", big |-> FALSE, hv |-> FALSE, k |-> 1, ls |-> FALSE]
Last == s.e[Len(s.e)]
Do(t) == /\ s.n <= MaxOps /\ Ok(s, t) /\ Last # "sign"
         /\ s' = [Apply(s, t) EXCEPT !.n = s.n + 1]
Next == IF s.n = 0 THEN \E n \in Leaves : Start(n) ELSE \E t \in Ops : Do(t)
Spec == Init /\ [][Next]_s

(* --- sin and cos of the current stage-A law ----------------------------- *)
(* <<q, <<sign, "F"/"L", preimage>>...>>; preimage 0 is q, 1 is c - q       *)
SinOK(G) == G.lo >= -6 /\ GHi(G) <= 18
CosOK(G) == G.lo >= 0 /\ GHi(G) <= 24
Trig(x) == [kind |-> "trig", e |-> x.e, lo |-> x.G.lo, F |-> x.G.F, L |-> x.G.L,
            sin |-> SinOK(x.G), cos |-> CosOK(x.G),
            \* P(sin X <= sin q) = F(q) + 1 - L(pi - q), q in [-3/2, 3/2]; F(pi - q) + 1 - L(q), q in [2, 9/2]
            \* P(cos X <= cos q) = F(2pi - q) - L(q), q in [0, 3]; F(q) - L(2pi - q), q in [7/2, 6]
            sq |-> [k \in 1..13 |-> RNorm(k - 7, 4)] \o [k \in 1..11 |-> RNorm(k + 7, 4)],
            cq |-> [k \in 1..13 |-> RNorm(k - 1, 4)] \o [k \in 1..11 |-> RNorm(k + 13, 4)]]

(* --- checked on the specification --------------------------------------- *)
MonoPts(p) == \A n \in 1..Len(p) : /\ RLe(p[n][3], p[n][2]) /\ RLe(R0, p[n][3]) /\ RLe(p[n][2], R1)
                                    /\ n < Len(p) => RLe(p[n][2], p[n + 1][3])
Sorted(p) == \A n \in 1..(Len(p) - 1) : RLt(p[n][1], p[n + 1][1])
LawOK == s.n = 0 \/ IF s.st = "A" THEN GOK(s.G)
                    ELSE /\ MonoPts(s.p)
                         /\ s.st = "B" => Sorted(s.p)
(* involutions and inverse pairs give the law back *)
Same(p, q) == {p[n] : n \in {k \in 1..Len(p) : p[k][1] # R0}} = {q[n] : n \in {k \in 1..Len(q) : q[k][1] # R0}}
Pairs == s.n = 0 \/ s.st # "B" \/
   /\ (NoZero(s) => LET i == Inv(Inv(s.p)) IN Same(i, s.p))
   /\ Flip(Flip(s.p)) = s.p
   /\ LET d == Scale(Scale(s, <<"mulc", <<-2, 3>>>>, <<-2, 3>>), <<"mulc", <<-3, 2>>>>, <<-3, 2>>) IN d.p = s.p
(* squares of a law and of its reflection agree *)
Even == s.n = 0 \/ s.st # "A" \/
   /\ Square(s, <<"sqr">>).p = Square([s EXCEPT !.G = GNeg(@)], <<"sqr">>).p
   /\ GSame(GAbs(s.G), GAbs(GNeg(s.G)))
EmitInv == s.n = 0 \/
   IF s.n = 1 THEN Emit(EmitLeaf(s.e[1])) /\ Emit(Trig(s))
   ELSE IF s.st = "A" THEN Emit([kind |-> "fun", e |-> s.e, p |-> Pts(s.G), ch |-> <<>>, k |-> 1]) /\ Emit(Trig(s))
   ELSE Emit([kind |-> "fun", e |-> s.e, p |-> s.p, ch |-> s.ch, k |-> IF s.ls \/ s.k > 8 THEN s.k ELSE 1])
=============================================================================
