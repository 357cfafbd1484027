---------------------------- MODULE SparseGrid ----------------------------
(* Sparse-grid interpolation by the combination technique, refined level by  *)
(* level.  A one-dimensional rule of level e interpolates at N(e)+1 nested   *)
(* Chebyshev points and turns T_m into the T_m' it is aliased to, so the     *)
(* interpolant of a product of Chebyshev polynomials is computed exactly.    *)
EXTENDS Rat, FiniteSets, TLC, Emit

CONSTANTS Cases, CountNodes
(* dimension, function as terms <<coefficient, degrees>>, last level allowed *)
CASES == <<
  [d |-> 1, f |-> << <<3, <<5>>>>, <<1, <<0>>>> >>, maxq |-> 4],
  [d |-> 1, f |-> << <<2, <<10>>>> >>, maxq |-> 4],
  [d |-> 1, f |-> << <<1, <<15>>>>, <<-2, <<1>>>> >>, maxq |-> 4],
  [d |-> 1, f |-> << <<1, <<37>>>>, <<1, <<2>>>> >>, maxq |-> 5],
  [d |-> 1, f |-> << <<1, <<75>>>>, <<4, <<13>>>> >>, maxq |-> 3],
  [d |-> 2, f |-> << <<1, <<3, 4>>>>, <<2, <<0, 1>>>> >>, maxq |-> 5],
  [d |-> 2, f |-> << <<2, <<10, 10>>>>, <<1, <<7, 0>>>> >>, maxq |-> 5],
  [d |-> 2, f |-> << <<1, <<13, 1>>>>, <<3, <<1, 12>>>>, <<1, <<0, 0>>>> >>, maxq |-> 5],
  [d |-> 2, f |-> << <<1, <<14, 17>>>> >>, maxq |-> 5],
  [d |-> 2, f |-> << <<1, <<2, 33>>>>, <<2, <<19, 3>>>> >>, maxq |-> 6],
  [d |-> 2, f |-> << <<1, <<26, 13>>>>, <<1, <<3, 3>>>> >>, maxq |-> 4],
  [d |-> 2, f |-> << <<5, <<11, 19>>>>, <<-1, <<23, 9>>>> >>, maxq |-> 3],
  [d |-> 3, f |-> << <<1, <<1, 2, 3>>>>, <<1, <<0, 0, 9>>>> >>, maxq |-> 4],
  [d |-> 3, f |-> << <<1, <<12, 1, 2>>>>, <<2, <<1, 0, 13>>>> >>, maxq |-> 4],
  [d |-> 3, f |-> << <<1, <<12, 3, 14>>>>, <<1, <<2, 2, 2>>>> >>, maxq |-> 4],
  [d |-> 3, f |-> << <<2, <<11, 12, 13>>>>, <<1, <<4, 0, 1>>>> >>, maxq |-> 4],
  [d |-> 4, f |-> << <<1, <<1, 2, 0, 3>>>>, <<1, <<9, 1, 1, 0>>>> >>, maxq |-> 3],
  [d |-> 4, f |-> << <<1, <<1, 12, 0, 1>>>>, <<2, <<3, 1, 0, 2>>>> >>, maxq |-> 3],
  [d |-> 4, f |-> << <<1, <<1, 12, 1, 0>>>>, <<2, <<3, 1, 0, 2>>>> >>, maxq |-> 4],
  [d |-> 1, f |-> << <<1, <<19>>>>, <<1, <<151>>>> >>, maxq |-> 7],
  [d |-> 1, f |-> << <<3, <<141>>>>, <<1, <<77>>>>, <<2, <<38>>>> >>, maxq |-> 7],
  [d |-> 2, f |-> << <<1, <<39, 11>>>>, <<1, <<17, 21>>>> >>, maxq |-> 6],
  [d |-> 2, f |-> << <<1, <<0, 77>>>>, <<1, <<37, 0>>>>, <<1, <<19, 19>>>> >>, maxq |-> 6],
  [d |-> 2, f |-> << <<1, <<31, 33>>>>, <<-1, <<5, 0>>>> >>, maxq |-> 5],
  [d |-> 2, f |-> << <<1, <<61, 13>>>> >>, maxq |-> 4],
  [d |-> 3, f |-> << <<1, <<0, 0, 14>>>>, <<1, <<12, 0, 0>>>>, <<1, <<0, 13, 0>>>> >>, maxq |-> 5],
  [d |-> 3, f |-> << <<1, <<33, 1, 0>>>>, <<2, <<1, 1, 17>>>> >>, maxq |-> 5],
  [d |-> 3, f |-> << <<1, <<15, 19, 1>>>>, <<2, <<0, 11, 12>>>> >>, maxq |-> 5],
  [d |-> 3, f |-> << <<1, <<23, 18, 2>>>> >>, maxq |-> 4],
  [d |-> 4, f |-> << <<1, <<11, 0, 13, 1>>>>, <<1, <<0, 0, 2, 19>>>> >>, maxq |-> 4] >>

N(e) == 10 * IPow(2, e - 1)
Fold(m, n) == LET r == m % (2 * n) IN IF r > n THEN 2 * n - r ELSE r

(* all tuples of positive levels with a given sum *)
RECURSIVE Compositions(_, _)
Compositions(d, s) == IF d = 1 THEN IF s >= 1 THEN {<<s>>} ELSE {}
                      ELSE UNION {{<<k>> \o t : t \in Compositions(d - 1, s - k)} : k \in 1..(s - d + 1)}
RECURSIVE SumT(_)
SumT(t) == IF t = <<>> THEN 0 ELSE Head(t) + SumT(Tail(t))
MinusOne(k) == IF k % 2 = 0 THEN 1 ELSE -1
Subgrids(q, d) == UNION {Compositions(d, s) : s \in MaxI(d, q - d + 1)..q}
Coef(q, d, p) == MinusOne(q - SumT(p)) * Binom(d - 1, q - SumT(p))

(* nodes of subgrid p as fractions of the finest grid of level L             *)
GridNodes(p, L) == LET ax(j) == {k * IPow(2, L - p[j]) : k \in 0..N(p[j])}
                   IN IF Len(p) = 1 THEN {<<x>> : x \in ax(1)}
                      ELSE IF Len(p) = 2 THEN {<<x, y>> : x \in ax(1), y \in ax(2)}
                      ELSE {<<x, y, z>> : x \in ax(1), y \in ax(2), z \in ax(3)}
Nodes(q, d, L) == UNION {GridNodes(p, L) : p \in Subgrids(q, d)}

(* interpolant of f at level q, as a function from degrees to coefficients   *)
FoldT(ms, p) == [j \in 1..Len(ms) |-> Fold(ms[j], N(p[j]))]
Interp(q, d, f) ==
  LET G == Subgrids(q, d)
      degs == UNION {{FoldT(f[i][2], p) : p \in G} : i \in 1..Len(f)}
      Cf(t) == LET Of(i) == LET S == {p \in G : FoldT(f[i][2], p) = t} C(p) == Coef(q, d, p) IN f[i][1] * ISumSet(C, S)
               IN ISumSet(Of, 1..Len(f))
  IN {x \in {<<Cf(t), t>> : t \in degs} : x[1] # 0}
AsSet(f) == {f[i] : i \in 1..Len(f)}

VARIABLES c, q, done
vars == <<c, q, done>>
D == CASES[c].d
F == CASES[c].f
Init == c \in Cases /\ q = CASES[c].d /\ done = FALSE
(* the next level is tried: if nothing changes the interpolant stays         *)
Next == /\ ~done
        /\ IF q > CASES[c].maxq THEN done' = TRUE /\ UNCHANGED <<c, q>>
           ELSE IF Interp(q + 1, D, F) = Interp(q, D, F) THEN done' = TRUE /\ UNCHANGED <<c, q>>
           ELSE q' = q + 1 /\ UNCHANGED <<c, done>>
Spec == Init /\ [][Next]_vars

Levels == q - D + 1
WeightsOne == LET C(p) == Coef(q, D, p) IN ISumSet(C, Subgrids(q, D)) = 1
(* every term of the span is counted exactly once, others never              *)
Downset(s) == UNION {Compositions(D, k) : k \in D..s}
OnceOnly == \A k \in Downset(q + 1) : LET C(p) == Coef(q, D, p)
                                      IN ISumSet(C, {p \in Subgrids(q, D) : \A j \in 1..D : p[j] >= k[j]}) = IF SumT(k) <= q THEN 1 ELSE 0
LevOf(m) == CHOOSE e \in 1..12 : N(e) >= m /\ (e = 1 \/ N(e - 1) < m)
InSpan == \A i \in 1..Len(F) : SumT([j \in 1..D |-> LevOf(F[i][2][j])]) <= q
Reproduces == InSpan => Interp(q, D, F) = AsSet(F)
Nested == (CountNodes /\ D <= 2 /\ q > D) => Nodes(q - 1, D, Levels) \subseteq Nodes(q, D, Levels)
NodeCount == IF CountNodes /\ D <= 3 THEN Cardinality(Nodes(q, D, Levels)) ELSE 0
EmitInv == Emit([c |-> c, d |-> D, q |-> q, maxq |-> CASES[c].maxq, f |-> F, done |-> done, count |-> NodeCount,
                 grids |-> {<<p, Coef(q, D, p)>> : p \in Subgrids(q, D)}, interp |-> Interp(q, D, F)])
=============================================================================
