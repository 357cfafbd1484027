------------------------------- MODULE Copula -------------------------------
(* Copulas on a lattice.  A strictly decreasing sequence u(0) = 1, u(1), ... *)
(* (the generator's inverse at multiples of a step) turns an Archimedean     *)
(* copula into addition of indices: C(u(i), u(j)) = u(i + j).  The upper     *)
(* bound is the maximum of indices; the lower bound, on u(k) = 1 - k/Size,   *)
(* addition cut at Size.  A point is built by adding one coordinate at a     *)
(* time; where u(k) is rational everything is computed exactly.              *)
EXTENDS Rat, FiniteSets, TLC, Emit

CONSTANTS Fams, Top, Dims, Size
Inf == 9999                                  \* the index of u = 0

(* pi: u = 2^-k (independence); clay1, clay2, clay3: Clayton with parameter  *)
(* 1, 1/2, 1/3; arch: any other generator (no values); M, W: the bounds      *)
Rational(f) == f # "arch"
U(f, k) == IF k = Inf THEN R0
           ELSE IF f = "pi" THEN <<1, IPow(2, k)>>
           ELSE IF f = "clay1" THEN RNorm(1, 1 + k)
           ELSE IF f = "clay2" THEN RSq(RNorm(2, 2 + k))
           ELSE IF f = "clay3" THEN RPow(RNorm(3, 3 + k), 3)
           ELSE RNorm(Size - k, Size)
Join(f, i, j) == IF i = Inf \/ j = Inf THEN Inf
                 ELSE IF f = "M" THEN MaxI(i, j)
                 ELSE IF f = "W" THEN (IF i + j >= Size THEN Inf ELSE i + j)
                 ELSE i + j
Ix(f) == (0..(IF f \in {"M", "W"} THEN Size - 1 ELSE Top)) \cup {Inf}

RECURSIVE JoinAll(_, _)
JoinAll(f, p) == IF p = <<>> THEN 0 ELSE Join(f, Head(p), JoinAll(f, Tail(p)))
C(f, p) == U(f, JoinAll(f, p))

(* density of the independence and Clayton copulas: with t = 1/parameter and *)
(* w = 1 + s t' the generator variable, in exact arithmetic                  *)
Den(f) == IF f = "clay1" THEN 1 ELSE IF f = "clay2" THEN 2 ELSE 3       \* 1/parameter
W1(f, k) == RNorm(Den(f) + k, Den(f))        \* 1 + parameter * k = u(k)^(-parameter)
RECURSIVE Rising(_, _)
Rising(f, d) == IF d = 0 THEN R1 ELSE RMul(RNorm(Den(f) + d - 1, Den(f)), Rising(f, d - 1))
RECURSIVE ProdW(_, _)
ProdW(f, p) == IF p = <<>> THEN R1 ELSE RMul(W1(f, Head(p)), ProdW(f, Tail(p)))
Density(f, p) == IF f = "pi" THEN R1
                 ELSE RMul(Rising(f, Len(p)), RMul(RPow(ProdW(f, p), Den(f) + 1), RInv(RPow(W1(f, JoinAll(f, p)), Den(f) + Len(p)))))

VARIABLES fam, pt
vars == <<fam, pt>>
Init == fam \in Fams /\ pt = <<>>
Next == /\ Len(pt) < Dims
        /\ \E k \in Ix(fam) : pt' = Append(pt, k)
        /\ UNCHANGED fam
Spec == Init /\ [][Next]_vars

D == Len(pt)
J == JoinAll(fam, pt)
Without(p, i) == [j \in 1..(Len(p) - 1) |-> IF j < i THEN p[j] ELSE p[j + 1]]
Set1(p, i, k) == [p EXCEPT ![i] = k]
(* a coordinate at one may be left out; one at zero makes everything zero    *)
Margins == \A i \in 1..D : pt[i] = 0 => J = JoinAll(fam, Without(pt, i))
Grounded == (\E i \in 1..D : pt[i] = Inf) => J = Inf
Symmetric == \A i, j \in 1..D : J = JoinAll(fam, [pt EXCEPT ![i] = pt[j], ![j] = pt[i]])
Associative == D = 3 => Join(fam, Join(fam, pt[1], pt[2]), pt[3]) = Join(fam, pt[1], Join(fam, pt[2], pt[3]))
(* larger index, smaller value *)
Increasing == \A i \in 1..D : \A k \in Ix(fam) : k >= pt[i] => JoinAll(fam, Set1(pt, i, k)) >= J
BelowUpper == \A i \in 1..D : J >= pt[i]
RMinSet(p) == LET S == {U(fam, p[i]) : i \in 1..Len(p)} IN CHOOSE x \in S : \A y \in S : RLe(x, y)
Lower(p) == RMax(R0, RAdd(RSumSeq([i \in 1..Len(p) |-> U(fam, p[i])]), RI(1 - Len(p))))
Bounds == (D > 0 /\ Rational(fam)) => /\ RLe(C(fam, pt), RMinSet(pt))
                                      /\ RLe(Lower(pt), C(fam, pt))
Extreme == D > 0 => /\ fam = "M" => C(fam, pt) = RMinSet(pt)
                    /\ fam = "W" => C(fam, pt) = Lower(pt)
(* mass of the box from the next lattice point below (or zero) to this one   *)
Down(k) == IF k = Inf THEN Inf ELSE IF k + 1 \in Ix(fam) THEN k + 1 ELSE Inf
Mass2(p, lo) == RSub(RSub(C(fam, p), C(fam, <<lo[1], p[2]>>)), RSub(C(fam, <<p[1], lo[2]>>), C(fam, lo)))
Mass3(p, lo) == LET S(c) == RMul(RI(IF Cardinality({i \in 1..3 : c[i]}) % 2 = 0 THEN 1 ELSE -1), C(fam, [i \in 1..3 |-> IF c[i] THEN lo[i] ELSE p[i]]))
                IN RSumSet(S, [1..3 -> BOOLEAN])
LoPt == [i \in 1..D |-> Down(pt[i])]
Mass == IF D = 2 THEN Mass2(pt, LoPt) ELSE IF D = 3 THEN Mass3(pt, LoPt) ELSE R0
BoxesOK == (D \in {2, 3} /\ Rational(fam) /\ ~(fam = "W" /\ D = 3) /\ ~(fam = "clay3" /\ D = 3)) => Mass[1] >= 0
(* distribution function of the others given the first n coordinates: a      *)
(* ratio of derivatives of u, at the whole index and at the given one        *)
Conditioned(f) == f \in {"pi", "clay1", "clay2", "clay3"}
Cond(f, n, i, j) == IF j = Inf THEN R0 ELSE IF f = "pi" THEN <<1, IPow(2, j)>> ELSE RPow(RNorm(Den(f) + i, Den(f) + i + j), Den(f) + n)
Given(f, p, n) == Cond(f, n, JoinAll(f, SubSeq(p, 1, n)), JoinAll(f, SubSeq(p, n + 1, Len(p))))
CanGive(n) == D > n /\ Conditioned(fam) /\ Inf \notin {pt[i] : i \in 1..n}
CondRange == \A n \in 1..2 : CanGive(n) => RLe(R0, Given(fam, pt, n)) /\ RLe(Given(fam, pt, n), R1) /\ (J = JoinAll(fam, SubSeq(pt, 1, n)) => Given(fam, pt, n) = R1)
(* given the first, moving along the second and then the third is one move   *)
CondChain == (D = 3 /\ CanGive(1) /\ Inf \notin {pt[2], pt[3]}) => Cond(fam, 1, pt[1], pt[2] + pt[3]) = RMul(Cond(fam, 1, pt[1], pt[2]), Cond(fam, 1, pt[1] + pt[2], pt[3]))
(* the mass of a strip lies between its width times the two conditional laws *)
Strip(i, j) == RSub(C(fam, <<i, j>>), C(fam, <<i + 1, j>>))
CondMean == (D = 2 /\ fam \in {"pi", "clay1"} /\ CanGive(1) /\ pt[2] # Inf) =>
            LET w == RSub(U(fam, pt[1]), U(fam, pt[1] + 1)) IN
            /\ RLe(RMul(w, Cond(fam, 1, pt[1], pt[2])), Strip(pt[1], pt[2]))
            /\ RLe(Strip(pt[1], pt[2]), RMul(w, Cond(fam, 1, pt[1] + 1, pt[2])))
HasDensity == fam \in {"pi", "clay1", "clay2", "clay3"} /\ D \in {2, 3} /\ Inf \notin {pt[i] : i \in 1..D} /\ ~(D = 3 /\ fam = "clay3")
DensityOK == HasDensity => Density(fam, pt)[1] > 0
EmitInv == D >= 2 => Emit([fam |-> fam, pt |-> pt, join |-> J, value |-> IF Rational(fam) THEN C(fam, pt) ELSE R0,
                           dens |-> IF HasDensity THEN Density(fam, pt) ELSE R0, hasd |-> HasDensity,
                           given |-> [n \in 1..2 |-> IF CanGive(n) THEN Given(fam, pt, n) ELSE <<-1, 1>>]])
=============================================================================
