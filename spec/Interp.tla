------------------------------- MODULE Interp -------------------------------
(* Adaptive polynomial interpolation as a state machine.  A function is a    *)
(* combination of Chebyshev polynomials T_m of the (transformed) variable; a *)
(* node set replaces each T_m by the polynomial of lower degree it cannot be *)
(* told from on its nodes, so interpolants, errors and stopping are exact.   *)
(*   "2": extrema nodes with both ends, "L"/"R": without one end, "1": roots *)
EXTENDS Rat, FiniteSets, TLC, Emit

CONSTANTS Classes, FunIds, MaxNs, RootSets, RootScale

(* the offered interpolators: node kind, what the transformed function must  *)
(* satisfy ("any", zero at both ends, zero at the left end, not negative)    *)
CLASS == [cheb |-> <<"2", "any">>, nol |-> <<"L", "any">>, nor |-> <<"R", "any">>, cheb1 |-> <<"1", "any">>,
          pminf |-> <<"2", "both">>, pinf |-> <<"2", "left">>, minf |-> <<"2", "left">>,
          pinfU |-> <<"2", "any">>, minfL |-> <<"2", "any">>, ident |-> <<"2", "any">>,
          val |-> <<"1", "any">>, log |-> <<"R", "any">>, poleP |-> <<"L", "nonneg">>, poleN |-> <<"R", "nonneg">>]

(* terms <<degree, coefficient>> *)
FUNS == << << <<0, 3>> >>, << <<1, 2>>, <<0, -1>> >>, << <<2, 1>>, <<1, 1>> >>, << <<3, 2>>, <<0, 1>> >>,
           << <<4, 1>>, <<2, -2>>, <<1, 1>> >>, << <<5, 3>>, <<4, 1>> >>, << <<6, 1>>, <<1, 4>> >>,
           << <<7, 1>>, <<3, -1>> >>, << <<8, 2>>, <<0, 1>>, <<5, 1>> >>, << <<9, 1>>, <<2, 3>> >>,
           << <<11, 2>>, <<10, 1>> >>, << <<13, -1>>, <<6, 2>>, <<0, 2>> >>, << <<15, 1>>, <<1, -1>> >>,
           << <<16, 2>>, <<7, 1>> >>, << <<17, 1>>, <<12, 2>> >>, << <<18, 1>>, <<5, -2>> >>,
           << <<21, 3>>, <<20, 1>> >>, << <<27, 1>>, <<4, 2>> >>, << <<31, -2>>, <<14, 1>>, <<3, 1>> >>,
           << <<33, 1>>, <<32, 1>> >>, << <<40, 1>>, <<19, 1>> >>, << <<47, 2>>, <<0, 1>> >>,
           << <<53, 1>>, <<26, -1>> >>, << <<54, 3>>, <<2, 1>> >>, << <<61, 1>>, <<33, 2>> >>,
           << <<64, 1>>, <<29, 1>> >>, << <<67, 2>>, <<66, -1>> >>, << <<85, 1>>, <<11, 1>> >>,
           << <<107, 1>>, <<50, 1>> >>, << <<127, 2>>, <<63, 1>> >> >>

MinusOne(k) == IF k % 2 = 0 THEN 1 ELSE -1
(* polynomials are functions from degrees to integers *)
Zero == [m \in {0} |-> 0]
At(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
TopOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Poly(terms) == LET D == 0..TopOf({terms[i][1] : i \in 1..Len(terms)})
               IN [m \in D |-> LET C(i) == terms[i][2] IN ISumSet(C, {i \in 1..Len(terms) : terms[i][1] = m})]
Terms(p) == {<<m, p[m]>> : m \in {k \in DOMAIN p : p[k] # 0}}
SameP(p, q) == Terms(p) = Terms(q)
Deg(p) == LET S == {m \in DOMAIN p : p[m] # 0} IN IF S = {} THEN 0 ELSE TopOf(S)
Add(p, q) == [m \in DOMAIN p \cup DOMAIN q |-> At(p, m) + At(q, m)]
Scale(c, p) == [m \in DOMAIN p |-> c * p[m]]
Mono(m, c) == [k \in 0..m |-> IF k = m THEN c ELSE 0]
RECURSIVE AddAll(_)
AddAll(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), AddAll(Tail(s)))

(* what T_m looks like on the nodes of a rule with n (nominal) points        *)
Fold(m, N) == LET r == m % (2 * N) IN IF r > N THEN 2 * N - r ELSE r
Reduced(k, n, m) ==
  IF k = "1" THEN LET q == m % (4 * n) s == IF q >= 2 * n THEN -1 ELSE 1 r == q % (2 * n)
                  IN IF r < n THEN Mono(r, s) ELSE IF r = n THEN Zero ELSE Mono(2 * n - r, -s)
  ELSE LET N == n - 1 r == Fold(m, N)
       IN IF k = "2" \/ r < N THEN Mono(r, 1)
          ELSE [j \in 0..(N - 1) |-> (IF j = 0 THEN 1 ELSE 2) * (IF k = "L" THEN MinusOne(N - 1 - j) ELSE -1)]
Interpolant(k, n, p) == LET S == {m \in DOMAIN p : p[m] # 0}
                            D == 0..(n - 1)
                            Cf(j) == LET C(m) == p[m] * At(Reduced(k, n, m), j) IN ISumSet(C, S)
                        IN [j \in D |-> Cf(j)]
Exactness(k, n) == IF k \in {"L", "R"} THEN n - 2 ELSE n - 1

(* nodes as angles in units of pi: <<i, n>> stands for -cos(pi i / n)        *)
Nodes(k, n) == IF k = "1" THEN {RNorm(2 * i + 1, 2 * n) : i \in 0..(n - 1)}
               ELSE {RNorm(i, n - 1) : i \in (IF k = "L" THEN 1 ELSE 0)..(IF k = "R" THEN n - 2 ELSE n - 1)}
First(k) == IF k = "1" THEN 2 ELSE 3
Grow(k, n) == IF k = "1" THEN 3 * n ELSE 2 * n - 1

(* derivatives and values at the ends *)
Deriv(p) == LET D == 0..MaxI(0, Deg(p) - 1)
            IN [j \in D |-> LET C(m) == (IF j = 0 THEN 1 ELSE 2) * m * p[m]
                            IN ISumSet(C, {m \in DOMAIN p : m > j /\ (m - j) % 2 = 1})]
AtOne(p) == LET C(m) == p[m] IN ISumSet(C, DOMAIN p)
AtMinusOne(p) == LET C(m) == MinusOne(m) * p[m] IN ISumSet(C, DOMAIN p)
SlopeAtOne(p) == LET C(m) == m * m * p[m] IN ISumSet(C, DOMAIN p)

(* functions of the class: adjusted so that they satisfy what it asks for    *)
AbsSum(p) == LET C(m) == AbsI(p[m]) IN ISumSet(C, DOMAIN p)
Adjust(req, p) == IF req = "left" THEN Add(p, Mono(0, -AtMinusOne(p)))
                  ELSE IF req = "both" THEN LET E == LET C(m) == p[m] IN ISumSet(C, {m \in DOMAIN p : m % 2 = 0})
                                                O == LET C(m) == p[m] IN ISumSet(C, {m \in DOMAIN p : m % 2 = 1})
                                            IN Add(p, Add(Mono(0, -E), Mono(1, -O)))
                  ELSE IF req = "nonneg" THEN Add(p, Mono(0, AbsSum(p)))
                  ELSE p

(* polynomials with known roots r/RootScale: products of (2 x - 2 r/s) s     *)
TimesTwoX(p) == [j \in 0..(TopOf(DOMAIN p) + 1) |-> At(p, j + 1) + (IF j = 0 THEN 0 ELSE At(p, j - 1)) + (IF j = 1 THEN At(p, 0) ELSE 0)]
Factor(p, r) == IF r >= 1000 THEN Add(TimesTwoX(TimesTwoX(p)), Scale(r - 1000, p))       \* no real root
                ELSE Add(Scale(RootScale, TimesTwoX(p)), Scale(-2 * r, p))
RECURSIVE FromRoots(_)
FromRoots(S) == IF S = {} THEN Mono(0, 1) ELSE LET r == TopOf(S) IN Factor(FromRoots(S \ {r}), r)
Inside(S) == {r \in S : r < RootScale /\ r > -RootScale}

VARIABLES cl, src, f, maxn, n, done
vars == <<cl, src, f, maxn, n, done>>
Kind == CLASS[cl][1]
Init == /\ cl \in Classes
        /\ maxn \in MaxNs
        /\ \/ \E i \in FunIds : src = <<"fun", {i}>> /\ f = Adjust(CLASS[cl][2], Poly(FUNS[i]))
           \/ \E S \in RootSets : cl \in {"cheb", "nol", "nor", "cheb1"} /\ src = <<"roots", S>> /\ f = FromRoots(S)
        /\ n = First(CLASS[cl][1])
        /\ done = FALSE
(* the nodes of the next rule are tried; they are kept if they disagree      *)
Agrees == SameP(Interpolant(Kind, n, f), Interpolant(Kind, Grow(Kind, n), f))
Next == /\ ~done
        /\ IF n > maxn \/ Agrees THEN done' = TRUE /\ n' = n
           ELSE n' = Grow(Kind, n) /\ done' = FALSE
        /\ UNCHANGED <<cl, src, f, maxn>>
Spec == Init /\ [][Next]_vars

I == Interpolant(Kind, n, f)
Nested == /\ Nodes(Kind, n) \subseteq Nodes(Kind, Grow(Kind, n))
          /\ Cardinality(Nodes(Kind, n)) = IF Kind \in {"L", "R"} THEN n - 1 ELSE n
DegreeOK == Deg(I) <= Exactness(Kind, n)
Reproduces == Deg(f) <= Exactness(Kind, n) => SameP(I, f)
Idempotent == SameP(Interpolant(Kind, n, I), I)
(* refining first and reducing then is reducing at once *)
Towers == SameP(Interpolant(Kind, n, Interpolant(Kind, Grow(Kind, n), f)), I)
(* agreement at the kept ends *)
EndsOK == /\ Kind \in {"2", "L"} => AtOne(I) = AtOne(f)
          /\ Kind \in {"2", "R"} => AtMinusOne(I) = AtMinusOne(f)
DerivOK == /\ AtOne(Deriv(I)) = SlopeAtOne(I)
           /\ Deg(Deriv(I)) <= MaxI(0, Deg(I) - 1)
ClassOK == /\ CLASS[cl][2] \in {"left", "both"} => AtMinusOne(f) = 0
           /\ CLASS[cl][2] = "both" => AtOne(f) = 0
Stops == (done /\ n <= maxn) => (Deg(f) <= Exactness(Kind, Grow(Kind, n)) => SameP(I, f))
Limit == n <= Grow(Kind, maxn)

EmitInv == Emit([cl |-> cl, kind |-> Kind, src |-> src[1], id |-> src[2], maxn |-> maxn, n |-> n, done |-> done, nodes |-> Cardinality(Nodes(Kind, n)),
                 f |-> Terms(f), interp |-> Terms(I), exact |-> SameP(I, f),
                 d1 |-> IF done THEN Terms(Deriv(I)) ELSE {}, d2 |-> IF done THEN Terms(Deriv(Deriv(I))) ELSE {},
                 roots |-> IF src[1] = "roots" THEN Inside(src[2]) ELSE {}])
RootsQ == {S \in SUBSET {-5, -3, -2, -1, 0, 1, 2, 3, 5, 1002} : Cardinality(S) \in 1..3}
RootsT == {S \in SUBSET {-6, -5, -3, -2, -1, 0, 1, 2, 3, 5, 1002, 1008} : Cardinality(S) \in 1..5}
=============================================================================
