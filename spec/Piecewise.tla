------------------------------ MODULE Piecewise ------------------------------
(* C11.  Piecewise functions with atoms.  A piece is a finite sum of terms    *)
(* c * (s*(x-t))^(k/2): a function from keys <<t, s, k>> to coefficients, with  *)
(* nonnegative integer powers always expanded about 0.  A segment is            *)
(* [a, b, kind, p]; kinds: "c" constant, "s" finite, "pl"/"pr" pole on the      *)
(* left/right, "mi"/"pi" from minus / to plus infinity.  atoms: point -> weight *)
EXTENDS Rat, FiniteSets, SequencesExt, Emit
CONSTANTS Names, MaxOps, UnOps, BinOps, AllOrders
VARIABLES name, order, f, val, steps

MINF == RI(-1000)
PINF == RI(1000)
NoVal == <<0, 0>>

(* ---- pieces ----------------------------------------------------------------- *)
Zero == [key \in {} |-> R0]
One(key, c) == IF c = R0 THEN Zero ELSE [k \in {key} |-> c]
CoefAt(p, key) == IF key \in DOMAIN p THEN p[key] ELSE R0
Clean(p) == [key \in {k \in DOMAIN p : p[k] # R0} |-> p[key]]
AddP(p, q) == Clean([key \in DOMAIN p \cup DOMAIN q |-> RAdd(CoefAt(p, key), CoefAt(q, key))])
ScaleP(p, r) == IF r = R0 THEN Zero ELSE [key \in DOMAIN p |-> RMul(p[key], r)]
NegP(p) == ScaleP(p, RI(-1))
RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN Zero ELSE LET x == CHOOSE y \in S : TRUE IN AddP(F(x), SumOver(F, S \ {x}))
PKey(n) == <<R0, 1, 2 * n>>
IsP(key) == key[3] >= 0 /\ key[3] % 2 = 0
Sg(s, n) == IF s < 0 /\ n % 2 = 1 THEN -1 ELSE 1
(* c * (s*(x-t))^(k/2) in canonical form *)
Term(t, s, k, c) ==
  IF k % 2 = 1 THEN One(<<t, s, k>>, c)
  ELSE LET n == k \div 2 IN
       IF k < 0 THEN One(<<t, 1, k>>, RMul(c, RI(Sg(s, AbsI(n)))))
       ELSE SumOver(LAMBDA j : One(PKey(j), RMul(c, RMul(RI(Sg(s, n) * Binom(n, j)), RPow(RNeg(t), n - j)))), 0..n)
(* product of two terms *)
MulT(k1, c1, k2, c2) ==
  IF IsP(k1) /\ IsP(k2) THEN One(PKey((k1[3] + k2[3]) \div 2), RMul(c1, c2))
  ELSE IF IsP(k1) THEN LET n == k1[3] \div 2  t == k2[1]  s == k2[2] IN
       SumOver(LAMBDA j : Term(t, s, k2[3] + 2 * j, RMul(RMul(c1, c2), RMul(RI(Binom(n, j) * Sg(s, j)), RPow(t, n - j)))), 0..n)
  ELSE IF IsP(k2) THEN LET n == k2[3] \div 2  t == k1[1]  s == k1[2] IN
       SumOver(LAMBDA j : Term(t, s, k1[3] + 2 * j, RMul(RMul(c1, c2), RMul(RI(Binom(n, j) * Sg(s, j)), RPow(t, n - j)))), 0..n)
  ELSE LET s == IF k1[3] % 2 = 1 THEN k1[2] ELSE k2[2]
           e1 == IF k1[2] # s THEN Sg(-1, AbsI(k1[3] \div 2)) ELSE 1
           e2 == IF k2[2] # s THEN Sg(-1, AbsI(k2[3] \div 2)) ELSE 1
       IN Term(k1[1], s, k1[3] + k2[3], RMul(RMul(c1, c2), RI(e1 * e2)))
OkMulT(k1, k2) == IsP(k1) \/ IsP(k2) \/ (k1[1] = k2[1] /\ (k1[2] = k2[2] \/ k1[3] % 2 = 0 \/ k2[3] % 2 = 0))
OkMul(p, q) == \A k1 \in DOMAIN p, k2 \in DOMAIN q : OkMulT(k1, k2)
MulP(p, q) == SumOver(LAMBDA pr : MulT(pr[1], p[pr[1]], pr[2], q[pr[2]]), (DOMAIN p) \X (DOMAIN q))
(* reciprocal of a single term or a linear function *)
CoefX(q) == CoefAt(q, PKey(1))
IsLinear(q) == DOMAIN q = {PKey(0), PKey(1)}
OkInv(q) == Cardinality(DOMAIN q) = 1 \/ IsLinear(q)
InvP(q) == IF IsLinear(q) THEN Term(RNeg(RDiv(CoefAt(q, PKey(0)), CoefX(q))), 1, -2, RInv(CoefX(q)))
           ELSE LET k == CHOOSE key \in DOMAIN q : TRUE IN Term(k[1], k[2], -k[3], RInv(q[k]))
ZeroOf(q) == IF IsLinear(q) THEN RNeg(RDiv(CoefAt(q, PKey(0)), CoefX(q))) ELSE (CHOOSE key \in DOMAIN q : TRUE)[1]
NoZeroIn(q, a, b) == OkInv(q) /\ (DOMAIN q = {PKey(0)} \/ RLt(ZeroOf(q), a) \/ RLt(b, ZeroOf(q)))
RECURSIVE PowP(_, _)
PowP(p, n) == IF n = 1 THEN p ELSE MulP(p, PowP(p, n - 1))
(* exact value where it is rational *)
EvalP(p, x) == IF \E k \in DOMAIN p : k[3] % 2 = 1 \/ (k[3] < 0 /\ x = k[1]) THEN NoVal
               ELSE RSumSet(LAMBDA k : LET n == k[3] \div 2  u == RSub(x, k[1]) IN
                                       RMul(p[k], IF n >= 0 THEN RPow(u, n) ELSE RInv(RPow(u, -n))), DOMAIN p)
Prim(p, x) == RSumSet(LAMBDA k : LET n == k[3] \div 2 + 1  u == RSub(x, k[1]) IN
                                 RDiv(RMul(p[k], IF n >= 0 THEN RPow(u, n) ELSE RInv(RPow(u, -n))), RI(n)), DOMAIN p)
HasPrim(p) == \A k \in DOMAIN p : k[3] % 2 = 0 /\ k[3] # -2 /\ AbsI(k[3]) <= 6 /\ (k[3] >= 0 \/ Cardinality(DOMAIN p) = 1)

(* ---- segments ---------------------------------------------------------------- *)
Seg(a, b, kind, p) == [a |-> a, b |-> b, kind |-> kind, p |-> p]
(* the sequence of segments s is cut into by the sorted points inside it *)
SplitSeg(s, pts) ==
  LET ins == SetToSortSeq({x \in pts : RLt(s.a, x) /\ RLt(x, s.b)}, RLt)
      n == Len(ins)
      ends == <<s.a>> \o ins \o <<s.b>>
      kind(i) == IF s.kind = "c" THEN "s"
                 ELSE IF s.kind \in {"mi", "pl"} THEN (IF i = 1 THEN s.kind ELSE "s")
                 ELSE IF s.kind \in {"pi", "pr"} THEN (IF i = n + 1 THEN s.kind ELSE "s")
                 ELSE s.kind
  IN IF n = 0 THEN <<s>> ELSE [i \in 1..n + 1 |-> Seg(ends[i], ends[i + 1], kind(i), s.p)]
Split(segs, pts) == FlattenSeq([i \in DOMAIN segs |-> SplitSeg(segs[i], pts)])
Ends(segs) == UNION {{segs[i].a, segs[i].b} : i \in DOMAIN segs} \ {MINF, PINF}
Breaks(g) == Ends(g.segs) \cup DOMAIN g.atoms
PieceOn(segs, a, b) == LET I == {i \in DOMAIN segs : segs[i].a = a /\ segs[i].b = b} IN
                       IF I = {} THEN Zero ELSE segs[CHOOSE i \in I : TRUE].p
Defined(segs, a, b) == \E i \in DOMAIN segs : segs[i].a = a /\ segs[i].b = b
Pole(p, x) == \E k \in DOMAIN p : k[3] < 0 /\ k[1] = x
KindOf(a, b, p) == IF a = MINF THEN "mi" ELSE IF b = PINF THEN "pi" ELSE IF Pole(p, a) THEN "pl" ELSE IF Pole(p, b) THEN "pr" ELSE "s"
SortCells(S) == SetToSortSeq(S, LAMBDA x, y : RLt(x[1], y[1]))
(* pieces aligned on common break points: sequence of <<a, b, piece of f, piece of g, defined in f, defined in g>> *)
Align(g, h) == LET B == Breaks(g) \cup Breaks(h)
                   G == Split(g.segs, B)  H == Split(h.segs, B)
                   cells == SortCells({<<G[i].a, G[i].b>> : i \in DOMAIN G} \cup {<<H[i].a, H[i].b>> : i \in DOMAIN H})
               IN [i \in DOMAIN cells |-> LET a == cells[i][1]  b == cells[i][2] IN
                   <<a, b, PieceOn(G, a, b), PieceOn(H, a, b), Defined(G, a, b), Defined(H, a, b)>>]
W(g, x) == IF x \in DOMAIN g.atoms THEN g.atoms[x] ELSE R0
AtomsOp(g, h, F(_, _)) == LET w == [x \in DOMAIN g.atoms \cup DOMAIN h.atoms |-> F(W(g, x), W(h, x))] IN
                          [x \in {y \in DOMAIN w : w[y] # R0} |-> w[x]]
FromCells(cs, P(_, _), atoms) == [segs |-> [i \in DOMAIN cs |-> LET p == P(cs[i][3], cs[i][4]) IN Seg(cs[i][1], cs[i][2], KindOf(cs[i][1], cs[i][2], p), p)],
                                  atoms |-> atoms]
(* poles are integrable, and not at the finite end of an infinite piece *)
OnePole(g) == \A i \in DOMAIN g.segs : LET s == g.segs[i] IN
                /\ \A k \in DOMAIN s.p : (k[1] = s.a \/ k[1] = s.b) => k[3] > -2
                /\ s.kind \in {"mi", "pi"} => ~Pole(s.p, s.a) /\ ~Pole(s.p, s.b)
                (* a cancelled pole leaves a segment which still is said to have one *)
Deg(p) == LET D == {AbsI(k[3]) : k \in DOMAIN p} IN IF D = {} THEN 0 ELSE CHOOSE d \in D : \A e \in D : e <= d
Poleless(g) == \A i \in DOMAIN g.segs : g.segs[i].kind \notin {"pl", "pr"}
OpBin(op, g, h) ==
  LET cs == Align(g, h) IN
  CASE op = "add" -> FromCells(cs, AddP, AtomsOp(g, h, RAdd))
    [] op = "sub" -> FromCells(cs, LAMBDA p, q : AddP(p, NegP(q)), AtomsOp(g, h, RSub))
    [] op = "mul" -> FromCells(cs, MulP, AtomsOp(g, h, RMul))
    [] op = "div" -> FromCells(cs, LAMBDA p, q : MulP(p, InvP(q)), AtomsOp(g, h, RMul))
OkBin(op, g, h) ==
  LET cs == Align(g, h) IN
  CASE op \in {"add", "sub"} -> TRUE
    [] op = "mul" -> \A i \in DOMAIN cs : Deg(cs[i][3]) + Deg(cs[i][4]) <= 8 /\ OkMul(cs[i][3], cs[i][4])
    [] op = "div" -> /\ DOMAIN g.atoms = {} /\ DOMAIN h.atoms = {}
                     /\ \A i \in DOMAIN cs : cs[i][6] /\ Deg(cs[i][3]) + Deg(cs[i][4]) <= 8 /\ NoZeroIn(cs[i][4], cs[i][1], cs[i][2]) /\ OkMul(cs[i][3], InvP(cs[i][4]))
MapP(g, P(_), w(_)) == [segs |-> [i \in DOMAIN g.segs |-> LET p == P(g.segs[i].p) s == g.segs[i] IN Seg(s.a, s.b, KindOf(s.a, s.b, p), p)],
                        atoms |-> Clean([x \in DOMAIN g.atoms |-> w(g.atoms[x])])]
Id(w) == w
(* image of a segment under x -> scale*x + shift; root = sqrt(|scale|) where rational, R0 otherwise *)
ShTerm(k, c, sh, sc, root) ==
  LET t == RAdd(sh, RMul(sc, k[1]))
      s == k[2] * RSgn(sc)
      m == RAbs(sc)
      fac == IF k[3] % 2 = 0 THEN LET n == k[3] \div 2 + 1 IN IF n >= 0 THEN RInv(RPow(m, n)) ELSE RPow(m, -n)
             ELSE LET n == k[3] + 2 IN IF n >= 0 THEN RInv(RPow(root, n)) ELSE RPow(root, -n)
  IN Term(t, s, k[3], RMul(c, fac))
ShP(p, sh, sc, root) == SumOver(LAMBDA k : ShTerm(k, p[k], sh, sc, root), DOMAIN p)
ShX(x, sh, sc) == RAdd(sh, RMul(sc, x))
ShSeg(s, sh, sc, root) == LET p == ShP(s.p, sh, sc, root) IN
  IF RSgn(sc) > 0 THEN Seg(IF s.a = MINF THEN MINF ELSE ShX(s.a, sh, sc), IF s.b = PINF THEN PINF ELSE ShX(s.b, sh, sc), s.kind, p)
  ELSE Seg(IF s.b = PINF THEN MINF ELSE ShX(s.b, sh, sc), IF s.a = MINF THEN PINF ELSE ShX(s.a, sh, sc),
           CASE s.kind = "mi" -> "pi" [] s.kind = "pi" -> "mi" [] s.kind = "pl" -> "pr" [] s.kind = "pr" -> "pl" [] OTHER -> s.kind, p)
Shift(g, sh, sc, root) ==
  [segs |-> LET S == [i \in DOMAIN g.segs |-> ShSeg(g.segs[i], sh, sc, root)] IN IF RSgn(sc) > 0 THEN S ELSE Reverse(S),
   atoms |-> [y \in {ShX(x, sh, sc) : x \in DOMAIN g.atoms} |-> g.atoms[RDiv(RSub(y, sh), sc)]]]
OkShift(g, root) == root # R0 \/ \A i \in DOMAIN g.segs : \A k \in DOMAIN g.segs[i].p : k[3] % 2 = 0
RestrictF(g, a, b) == [segs |-> SelectSeq(Split(g.segs, {a, b}), LAMBDA s : RLe(a, s.a) /\ RLe(s.b, b)),
                      atoms |-> [x \in {y \in DOMAIN g.atoms : RLe(a, y) /\ RLt(y, b)} |-> g.atoms[x]]]

(* ---- the functions ------------------------------------------------------------ *)
R(a, b) == <<a, b>>
P1(n, c) == One(PKey(n), c)
Sum2(p, q) == AddP(p, q)
At(S) == [x \in {t[1] : t \in S} |-> (CHOOSE t \in S : t[1] = x)[2]]
NoAt == [x \in {} |-> R0]
Lib == [
 line |-> [segs |-> <<Seg(R0, R1, "s", Sum2(P1(0, R1), P1(1, R1))), Seg(R1, RI(3), "c", P1(0, RI(2)))>>, atoms |-> NoAt],
 hole |-> [segs |-> <<Seg(RI(-2), RI(-1), "s", P1(2, R1)), Seg(R1, RI(2), "s", Sum2(P1(0, RI(3)), P1(1, RI(-1))))>>,
           atoms |-> At({<<R0, R(1,2)>>, <<RI(2), R(1,4)>>})],
 tail |-> [segs |-> <<Seg(MINF, RI(-1), "mi", One(<<R0, 1, -4>>, R1)), Seg(RI(-1), R1, "c", P1(0, R1)), Seg(R1, PINF, "pi", One(<<R0, 1, -4>>, R1))>>, atoms |-> NoAt],
 pole |-> [segs |-> <<Seg(R0, R1, "pl", One(<<R0, 1, -1>>, R1)), Seg(R1, RI(4), "s", One(<<R0, 1, -1>>, R(1,2)))>>, atoms |-> NoAt],
 rpole |-> [segs |-> <<Seg(RI(-1), R0, "pr", One(<<R0, -1, -1>>, R1)), Seg(R0, RI(2), "s", P1(1, R1))>>, atoms |-> At({<<R1, R(1,3)>>})],
 atoms |-> [segs |-> <<>>, atoms |-> At({<<RI(-1), R(1,4)>>, <<R1, R(1,4)>>, <<RI(4), R(1,2)>>})],
 mixed |-> [segs |-> <<Seg(R0, RI(2), "c", P1(0, R(1,4))), Seg(RI(2), RI(5), "s", Sum2(P1(0, R(5,9)), P1(1, R(-1,9))))>>,
            atoms |-> At({<<R0, R(1,8)>>, <<R1, R(1,4)>>, <<RI(5), R(1,2)>>})],
 midp |-> [segs |-> <<Seg(RI(-1), R1, "pl", One(<<RI(-1), 1, -1>>, R1)), Seg(R1, RI(3), "pr", One(<<RI(3), -1, -1>>, RI(2)))>>, atoms |-> NoAt],
 ptail |-> [segs |-> <<Seg(RI(2), PINF, "pi", One(<<R0, 1, -6>>, RI(8)))>>, atoms |-> At({<<RI(2), R(1,2)>>, <<RI(7), R1>>})],
 cub |-> [segs |-> <<Seg(RI(-1), R(1,2), "s", Sum2(P1(3, R1), Sum2(P1(1, RI(-1)), P1(0, R1)))), Seg(R(1,2), RI(3), "s", One(<<R0, 1, -2>>, R1))>>, atoms |-> NoAt],
 mtail |-> [segs |-> <<Seg(MINF, R0, "mi", One(<<R1, 1, -6>>, RI(-1))), Seg(R0, R1, "s", Sum2(P1(0, R1), P1(2, RI(-1)))), Seg(RI(3), RI(4), "c", P1(0, RI(-2)))>>,
            atoms |-> At({<<RI(-3), R(1,4)>>})]]
Consts == {RI(2), R(-1,2)}
Shifts == {<<RI(2), RI(-1), R1>>, <<R(-1,2), RI(4), RI(2)>>, <<R0, R(1,4), R(1,2)>>, <<RI(3), RI(2), R0>>, <<R1, R1, R1>>, <<RI(1), RI(-3), R0>>}
Cuts == {<<R(-1,2)>>, <<R1, R(3,2)>>, <<R0, RI(5), R(9,4)>>, <<RI(-3), R(1,4), RI(2), RI(6)>>}
Windows == {<<RI(-1), R1>>, <<R(1,2), RI(5)>>, <<RI(-5), R0>>, <<R1, RI(2)>>, <<RI(-4), RI(7)>>}
Pts == <<RI(-4), R(-5,2), R(-3,2), R(-5,4), R(-1,2), R(-1,4), R(1,4), R(3,4), R(5,4), R(3,2), R(5,2), R(7,2), RI(6), RI(8)>>

EvalF(g, x) == IF x \in Breaks(g) THEN NoVal
               ELSE LET I == {i \in DOMAIN g.segs : RLt(g.segs[i].a, x) /\ RLt(x, g.segs[i].b)} IN
                    IF I = {} THEN R0 ELSE EvalP(g.segs[CHOOSE i \in I : TRUE].p, x)
ValOf(g) == [i \in DOMAIN Pts |-> EvalF(g, Pts[i])]
InSupp(g, x) == \E i \in DOMAIN g.segs : RLt(g.segs[i].a, x) /\ RLt(x, g.segs[i].b)
V1(F(_), v) == IF v = NoVal THEN NoVal ELSE F(v)
V2(F(_, _), v, w) == IF v = NoVal \/ w = NoVal THEN NoVal ELSE F(v, w)

Items(g) == Len(g.segs) + Cardinality(DOMAIN g.atoms)
Ident(n) == [i \in 1..n |-> i]
Rot(n, k) == [i \in 1..n |-> ((i - 1 + k) % n) + 1]
(* a piece cannot be added over an atom which is there already *)
AtomSeq(g) == SetToSortSeq(DOMAIN g.atoms, RLt)
Pos(o, i) == CHOOSE k \in DOMAIN o : o[k] = i
Buildable(g, o) == \A i \in DOMAIN g.segs, j \in DOMAIN AtomSeq(g) :
                     (RLt(g.segs[i].a, AtomSeq(g)[j]) /\ RLt(AtomSeq(g)[j], g.segs[i].b)) => Pos(o, i) < Pos(o, Len(g.segs) + j)
Orders(g) == LET n == Items(g) IN
             IF AllOrders THEN {o \in Permutations(1..n) : Buildable(g, o)} ELSE {Ident(n)}
Init == /\ name \in Names /\ f = Lib[name] /\ order \in Orders(Lib[name]) /\ steps = <<>> /\ val = ValOf(Lib[name])
St(op, c, o) == [op |-> op, c |-> c, o |-> o]
(* new = the function by the algebra of pieces, pw = pointwise, from the values before *)
Do(st, new, pw) == /\ f' = new /\ steps' = Append(steps, st) /\ UNCHANGED <<name, order>>
                   /\ val' = [i \in DOMAIN Pts |-> IF Pts[i] \in Breaks(new) THEN NoVal ELSE pw[i]]
Num(op, r) ==
  LET on(F(_)) == [i \in DOMAIN Pts |-> IF InSupp(f, Pts[i]) THEN V1(F, val[i]) ELSE val[i]]
      c == P1(0, r) IN
  CASE op \in {"addn", "raddn"} -> Do(St(op, <<r>>, ""), MapP(f, LAMBDA p : AddP(p, c), Id), on(LAMBDA v : RAdd(v, r)))
    [] op = "subn" -> Do(St(op, <<r>>, ""), MapP(f, LAMBDA p : AddP(p, NegP(c)), Id), on(LAMBDA v : RSub(v, r)))
    [] op = "rsubn" -> Do(St(op, <<r>>, ""), MapP(f, LAMBDA p : AddP(c, NegP(p)), RNeg), on(LAMBDA v : RSub(r, v)))
    [] op \in {"muln", "rmuln"} -> Do(St(op, <<r>>, ""), MapP(f, LAMBDA p : ScaleP(p, r), LAMBDA w : RMul(w, r)), on(LAMBDA v : RMul(v, r)))
    [] op = "divn" -> Do(St(op, <<r>>, ""), MapP(f, LAMBDA p : ScaleP(p, RInv(r)), LAMBDA w : RDiv(w, r)), on(LAMBDA v : RDiv(v, r)))
    [] op = "rdivn" -> /\ DOMAIN f.atoms = {}
                       /\ (\A i \in DOMAIN f.segs : NoZeroIn(f.segs[i].p, f.segs[i].a, f.segs[i].b)) = TRUE
                       /\ Poleless(f)
                       /\ Do(St(op, <<r>>, ""), MapP(f, LAMBDA p : ScaleP(InvP(p), r), Id), on(LAMBDA v : IF v = R0 THEN NoVal ELSE RDiv(r, v)))
Pow(n) == /\ (\A i \in DOMAIN f.segs : n * Deg(f.segs[i].p) <= 8) = TRUE
          /\ (\A i \in DOMAIN f.segs : OkMul(f.segs[i].p, f.segs[i].p)) = TRUE
          /\ LET g == MapP(f, LAMBDA p : PowP(p, n), LAMBDA w : RPow(w, n)) IN
             OnePole(g) = TRUE /\ Do(St("pow", <<RI(n)>>, ""), g, [i \in DOMAIN Pts |-> V1(LAMBDA v : RPow(v, n), val[i])])
Bin(op, h, o, rev) ==
  LET g1 == IF rev THEN h ELSE f  g2 == IF rev THEN f ELSE h
      hv == ValOf(h)
      F(x, y) == CASE op = "add" -> RAdd(x, y) [] op = "sub" -> RSub(x, y) [] op = "mul" -> RMul(x, y)
                   [] op = "div" -> IF y = R0 THEN (IF x = R0 THEN R0 ELSE NoVal) ELSE RDiv(x, y)
  IN /\ OkBin(op, g1, g2) = TRUE
     /\ LET g == OpBin(op, g1, g2) IN
        /\ OnePole(g) = TRUE
        /\ Do(St((IF rev THEN "r" ELSE "") \o op, <<>>, o), g,
              [i \in DOMAIN Pts |-> IF rev THEN V2(F, hv[i], val[i]) ELSE V2(F, val[i], hv[i])])
DoShift(t) == /\ OkShift(f, t[3]) = TRUE
              /\ Do(St("shift", <<t[1], t[2]>>, ""), Shift(f, t[1], t[2], t[3]),
                    [i \in DOMAIN Pts |-> V1(LAMBDA v : RDiv(v, RAbs(t[2])), EvalF(f, RDiv(RSub(Pts[i], t[1]), t[2])))])
DoSplit(c) == Do(St("split", c, ""), [f EXCEPT !.segs = Split(f.segs, ToSet(c))], val)
DoRestrict(w) == /\ LET g == RestrictF(f, w[1], w[2]) IN (g.segs # <<>> \/ DOMAIN g.atoms # {}) = TRUE /\
                    Do(St("restrict", w, ""), g, [i \in DOMAIN Pts |-> IF RLt(w[1], Pts[i]) /\ RLt(Pts[i], w[2]) THEN val[i] ELSE R0])
DoInterp == (IF steps = <<>> THEN TRUE ELSE steps[Len(steps)].op # "interp") /\ Do(St("interp", <<>>, ""), f, val)
Next == /\ order = Ident(Items(Lib[name])) /\ Len(steps) < MaxOps
        /\ \/ \E op \in UnOps \cap {"addn", "raddn", "subn", "rsubn", "muln", "rmuln", "divn", "rdivn"}, r \in Consts : Num(op, r)
           \/ "pow" \in UnOps /\ \E n \in {2, 3} : Pow(n)
           \/ \E op \in BinOps, o \in Names : Bin(op, Lib[o], o, FALSE) \/ (op \in {"sub", "div"} /\ Bin(op, Lib[o], o, TRUE))
           \/ \E op \in BinOps : Bin(op, f, "self", FALSE)
           \/ "shift" \in UnOps /\ \E t \in Shifts : DoShift(t)
           \/ "split" \in UnOps /\ \E c \in Cuts : DoSplit(c)
           \/ "restrict" \in UnOps /\ \E w \in Windows : DoRestrict(w)
           \/ "interp" \in UnOps /\ DoInterp
Spec == Init /\ [][Next]_<<name, order, f, val, steps>>

(* ---- properties ------------------------------------------------------------------ *)
Ordered == \A i \in DOMAIN f.segs : RLt(f.segs[i].a, f.segs[i].b) /\ (i > 1 => RLe(f.segs[i - 1].b, f.segs[i].a))
ValOK == \A i \in DOMAIN Pts : val[i] = NoVal \/ EvalF(f, Pts[i]) \in {NoVal, val[i]}
(* integrals over adjacent parts of a piece add up, and are unchanged by cutting and by shifting and scaling *)
Mid(s) == RDiv(RAdd(s.a, s.b), RI(2))
IntOK == \A i \in DOMAIN f.segs : LET s == f.segs[i] IN (s.a # MINF /\ s.b # PINF /\ HasPrim(s.p) /\ ~Pole(s.p, s.a) /\ ~Pole(s.p, s.b)) =>
           LET cut == SplitSeg(s, {Mid(s)})  I(t) == RSub(Prim(t.p, t.b), Prim(t.p, t.a))
               sh == ShSeg(s, RI(2), RI(-1), R1) IN RAdd(I(cut[1]), I(cut[2])) = I(s) /\ I(sh) = I(s)
AtomsOK == \A x \in DOMAIN f.atoms : f.atoms[x] # R0
TermSeq(p) == SetToSeq({<<k[1], k[2], k[3], p[k]>> : k \in DOMAIN p})
Out(g) == [segs |-> [i \in DOMAIN g.segs |-> [a |-> g.segs[i].a, b |-> g.segs[i].b, kind |-> g.segs[i].kind, p |-> TermSeq(g.segs[i].p)]],
           atoms |-> SetToSortSeq({<<x, g.atoms[x]>> : x \in DOMAIN g.atoms}, LAMBDA s, t : RLt(s[1], t[1]))]
EmitPw == Emit([kind |-> "pw", name |-> name, order |-> order, steps |-> steps, f |-> Out(f), init |-> IF steps = <<>> THEN 1 ELSE 0])
=============================================================================
