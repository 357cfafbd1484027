------------------------------ MODULE GridLaw ------------------------------
(* Laws described by their cumulative probabilities on the quarter-integer   *)
(* grid: [lo, F, L, deg]; F[n], L[n] are P(X <= t), P(X < t) at              *)
(* t = (lo + n - 1)/4.  All probability outside the listed range is zero.    *)
(* All break points are multiples of 1/2 and between them the cdf is a       *)
(* polynomial of degree <= deg, so Simpson's rule gives exact moments while  *)
(* deg <= 3.  Closed under max, min, negation, lattice shifts, |.|,          *)
(* conditioning at half integers, mixing.                                    *)
EXTENDS Catalog

GHi(G) == G.lo + Len(G.F) - 1
GF(G, t) == IF t < G.lo THEN R0 ELSE IF t > GHi(G) THEN R1 ELSE G.F[t - G.lo + 1]
GL(G, t) == IF t <= G.lo THEN (IF t < G.lo THEN R0 ELSE G.L[1]) ELSE IF t > GHi(G) THEN R1 ELSE G.L[t - G.lo + 1]
(* tabulate two functions of the grid index; lo, hi even *)
GTab(lo, hi, F(_), L(_), deg) == [lo |-> lo, F |-> SeqOfRange(lo, hi, LAMBDA t : F(t)), L |-> SeqOfRange(lo, hi, LAMBDA t : L(t)), deg |-> deg]

(* triangle on [i, i + 2] at u quarters from i *)
QTri(u) == IF u <= 0 THEN R0 ELSE IF u >= 8 THEN R1
           ELSE IF u <= 4 THEN RNorm(u * u, 32) ELSE RSub(R1, RNorm((8 - u) * (8 - u), 32))
QDens(k, t) == IF k[1] = 1 THEN RClamp(RNorm(t - 4 * k[2], 4), R0, R1) ELSE QTri(t - 4 * k[2])
QCell(k, t) == IF k[1] = 0 THEN (IF t >= 4 * k[2] THEN R1 ELSE R0) ELSE QDens(k, t)
QCellL(k, t) == IF k[1] = 0 THEN (IF t > 4 * k[2] THEN R1 ELSE R0) ELSE QDens(k, t)
GOf(A) == GTab(4 * LoEnd(A), 4 * HiEnd(A),            \* atoms, cells, triangles
   LAMBDA t : RDiv(RSumSet(LAMBDA k : RMul(RI(A.M[k]), QCell(k, t)), Keys(A)), RI(A.W)),
   LAMBDA t : RDiv(RSumSet(LAMBDA k : RMul(RI(A.M[k]), QCellL(k, t)), Keys(A)), RI(A.W)),
   IF OnlyAtoms(A) THEN 0 ELSE IF Flat(A) THEN 1 ELSE 2)
GConst(c) == [lo |-> c, F |-> <<R1>>, L |-> <<R0>>, deg |-> 0]       \* point mass at c/4

RComp(p) == RSub(R1, p)
GMax(A, B) == GTab(MaxI(A.lo, B.lo), MaxI(GHi(A), GHi(B)),
   LAMBDA t : RMul(GF(A, t), GF(B, t)), LAMBDA t : RMul(GL(A, t), GL(B, t)), A.deg + B.deg)
GMin(A, B) == GTab(MinI(A.lo, B.lo), MinI(GHi(A), GHi(B)),
   LAMBDA t : RComp(RMul(RComp(GF(A, t)), RComp(GF(B, t)))),
   LAMBDA t : RComp(RMul(RComp(GL(A, t)), RComp(GL(B, t)))), A.deg + B.deg)
GNeg(A) == GTab(-GHi(A), -A.lo, LAMBDA t : RComp(GL(A, -t)), LAMBDA t : RComp(GF(A, -t)), A.deg)
GShift(A, c) == [A EXCEPT !.lo = A.lo + c]
GAbs(A) == LET hi == MaxI(AbsI(A.lo), AbsI(GHi(A)))
           IN GTab(0, hi, LAMBDA t : RSub(GF(A, t), GL(A, -t)),
                          LAMBDA t : IF t = 0 THEN R0 ELSE RSub(GL(A, t), GF(A, -t)), A.deg)
(* open-interval conditioning *)
GCondOK(A, l, u) == RLt(GF(A, l), GL(A, u))
GCond(A, l, u) ==
   LET a == GF(A, l)  m == RSub(GL(A, u), a)
       lo == MaxI(l, A.lo)  hi == MinI(u, GHi(A))
       In(p) == RClamp(RDiv(RSub(p, a), m), R0, R1)
   IN GTab(lo, hi, LAMBDA t : In(GF(A, t)), LAMBDA t : IF t <= l THEN R0 ELSE In(GL(A, t)), A.deg)
GMix(A, B, p, q) ==
   LET w == RNorm(p, p + q)  v == RNorm(q, p + q)
   IN GTab(MinI(A.lo, B.lo), MaxI(GHi(A), GHi(B)),
      LAMBDA t : RAdd(RMul(w, GF(A, t)), RMul(v, GF(B, t))),
      LAMBDA t : RAdd(RMul(w, GL(A, t)), RMul(v, GL(B, t))), MaxI(A.deg, B.deg))

(* integral of p(t) F(t) over [lo, hi] by Simpson on half-unit panels, t in units *)
GInt(A, P(_)) ==
   LET n == (GHi(A) - A.lo) \div 2
       T(k) == A.lo + 2 * k
       Panel(k) == RAdd(RMul(P(RNorm(T(k), 4)), GF(A, T(k))),
                   RAdd(RMul(RI(4), RMul(P(RNorm(T(k) + 1, 4)), GF(A, T(k) + 1))),
                        RMul(P(RNorm(T(k) + 2, 4)), GL(A, T(k) + 2))))
   IN RDiv(RSumSeq([k \in 1..n |-> Panel(k - 1)]), RI(12))
GMean(A) == RSub(RNorm(GHi(A), 4), GInt(A, LAMBDA t : R1))
GM2(A) == RSub(RSq(RNorm(GHi(A), 4)), GInt(A, LAMBDA t : RMul(RI(2), t)))
GVar(A) == RSub(GM2(A), RSq(GMean(A)))

GOK(A) == /\ A.lo % 2 = 0 /\ Len(A.F) % 2 = 1
          /\ A.L[1] = R0 /\ A.F[Len(A.F)] = R1
          /\ \A n \in 1..Len(A.F) : /\ RLe(A.L[n], A.F[n])
                                    /\ n < Len(A.F) => RLe(A.F[n], A.L[n + 1])
GSame(A, B) == \A t \in MinI(A.lo, B.lo)..MaxI(GHi(A), GHi(B)) : GF(A, t) = GF(B, t) /\ GL(A, t) = GL(B, t)
GObs(A) == [lo |-> A.lo, F |-> A.F, L |-> A.L,
            mean |-> IF A.deg <= 3 THEN <<GMean(A)>> ELSE <<>>,
            var |-> IF A.deg <= 2 THEN <<GVar(A)>> ELSE <<>>]
=============================================================================
