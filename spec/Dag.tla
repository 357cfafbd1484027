-------------------------------- MODULE Dag --------------------------------
(* C12, C13.  The graph of random variables.  A node knows its direct        *)
(* operands; ancestors, free and derived ancestors, the independence warning, *)
(* the value at given values of the free variables and the number of draws    *)
(* of each free variable in an untracked sample all follow from that.         *)
(* Values are exact rationals at four assignments of the base variables       *)
(* (<<>> once a transcendental function is involved).                         *)
EXTENDS Rat, FiniteSets, Emit
CONSTANTS Bases, Un, UnC, Bin, MaxBuild, Free
VARIABLES nodes, steps, warn

K == 4
Q(s) == [i \in 1..K |-> RNorm(s[i][1], s[i][2])]
BaseVal == [A |-> Q(<< <<1,1>>, <<2,1>>, <<3,2>>, <<5,4>> >>),        \* inside [1, 2]
            B |-> Q(<< <<-1,1>>, <<1,2>>, <<3,1>>, <<2,1>> >>),       \* inside [-1, 3]
            C |-> Q(<< <<-2,1>>, <<3,2>>, <<1,1>>, <<4,1>> >>),       \* any number
            D |-> Q(<< <<2,1>>, <<-1,1>>, <<2,1>>, <<-1,1>> >>)]      \* one of -1, 2
Positive == {"A"}
N == Len(nodes)
Node(op, pars, c, val, pos) == [op |-> op, pars |-> pars, c |-> c, val |-> val, pos |-> pos]

(* ---- what follows from the direct operands ------------------------------ *)
RECURSIVE AncOf(_, _)
AncOf(g, i) == {i} \cup UNION {AncOf(g, g[i].pars[k]) : k \in DOMAIN g[i].pars}
Anc(i) == AncOf(nodes, i)
IsFree(i) == nodes[i].pars = <<>>
FreeAnc(i) == {j \in Anc(i) : IsFree(j)}
DepAnc(i) == {j \in Anc(i) : ~IsFree(j)}
RECURSIVE Occ(_, _)                 \* number of paths from i up to the free node b
Occ(i, b) == IF i = b THEN 1 ELSE ISumSet(LAMBDA k : Occ(nodes[i].pars[k], b), DOMAIN nodes[i].pars)

(* ---- values ---------------------------------------------------------------- *)
Map1(F(_), v) == IF v = <<>> THEN <<>> ELSE [k \in 1..K |-> F(v[k])]
Map2(F(_, _), v, w) == IF v = <<>> \/ w = <<>> THEN <<>> ELSE [k \in 1..K |-> F(v[k], w[k])]
NoZero(v) == v # <<>> /\ \A k \in 1..K : v[k] # R0
Val1(op, v) ==
  CASE op = "neg" -> Map1(RNeg, v)
    [] op = "abs" -> Map1(RAbs, v)
    [] op = "sqr" -> Map1(RSq, v)
    [] op = "sign" -> Map1(LAMBDA x : RI(RSgn(x)), v)
    [] op = "inv" -> IF NoZero(v) THEN Map1(RInv, v) ELSE <<>>
    [] OTHER -> <<>>
ValC(op, v, c) ==
  CASE op \in {"addc", "raddc"} -> Map1(LAMBDA x : RAdd(x, c), v)
    [] op = "subc" -> Map1(LAMBDA x : RSub(x, c), v)
    [] op = "rsubc" -> Map1(LAMBDA x : RSub(c, x), v)
    [] op \in {"mulc", "rmulc"} -> Map1(LAMBDA x : RMul(x, c), v)
    [] op = "divc" -> Map1(LAMBDA x : RDiv(x, c), v)
    [] op = "rdivc" -> IF NoZero(v) THEN Map1(LAMBDA x : RDiv(c, x), v) ELSE <<>>
    [] op = "maxc" -> Map1(LAMBDA x : RMax(x, c), v)
    [] op = "minc" -> Map1(LAMBDA x : RMin(x, c), v)
    [] op = "powc" -> IF c[2] = 1 /\ c[1] > 0 THEN Map1(LAMBDA x : RPow(x, c[1]), v) ELSE <<>>
    [] OTHER -> <<>>
Val2(op, v, w) ==
  CASE op = "add" -> Map2(RAdd, v, w) [] op = "sub" -> Map2(RSub, v, w)
    [] op = "mul" -> Map2(RMul, v, w) [] op = "max" -> Map2(RMax, v, w) [] op = "min" -> Map2(RMin, v, w)
    [] op = "div" -> IF NoZero(w) THEN Map2(RDiv, v, w) ELSE <<>>
    [] OTHER -> <<>>
(* log, non-integer powers and X**Y need a variable known to be nonnegative without computing its law *)
Ok1(op, i) == CASE op \in {"log", "sqrt"} -> nodes[i].pos
                [] op = "inv" -> TRUE
                [] op = "sign" -> IsFree(i)          \* evaluates the law of its argument
                [] OTHER -> TRUE
OkC(op, i, c) == op = "powc" => nodes[i].pos
Ok2(op, i, j) == op = "pow" => nodes[i].pos

BaseSeq == CHOOSE s \in [1..Cardinality(Bases) -> Bases] : \A x, y \in DOMAIN s : x # y => s[x] # s[y]
Init == /\ nodes = [k \in 1..Cardinality(Bases) |-> Node(BaseSeq[k], <<>>, <<>>, BaseVal[BaseSeq[k]], BaseSeq[k] \in Positive)]
        /\ steps = <<>> /\ warn = FALSE
Add(n, st, w) == nodes' = Append(nodes, n) /\ steps' = Append(steps, st) /\ warn' = w
Build1(op, i) == Ok1(op, i) /\ Add(Node(op, <<i>>, <<>>, Val1(op, nodes[i].val), op \in {"exp"}), [op |-> op, i |-> i, j |-> 0, c |-> <<>>], FALSE)
BuildC(op, i, c) == OkC(op, i, c) /\ Add(Node(op, <<i>>, c, ValC(op, nodes[i].val, c), op \in {"powc", "rpow"}), [op |-> op, i |-> i, j |-> 0, c |-> c], FALSE)
Build2(op, i, j) == Ok2(op, i, j) /\ Add(Node(op, <<i, j>>, <<>>, Val2(op, nodes[i].val, nodes[j].val), op = "pow"),
                                           [op |-> op, i |-> i, j |-> j, c |-> <<>>], Anc(i) \cap Anc(j) # {})
(* the defining equation of a derived variable is forgotten *)
MakeFree(i) == /\ ~IsFree(i)
               /\ nodes' = [nodes EXCEPT ![i].pars = <<>>]
               /\ steps' = Append(steps, [op |-> "make_free", i |-> i, j |-> 0, c |-> <<>>]) /\ warn' = FALSE
Next == /\ Len(steps) < MaxBuild
        /\ \/ \E op \in Un, i \in 1..N : Build1(op, i)
           \/ \E t \in UnC, i \in 1..N : BuildC(t[1], i, t[2])
           \/ \E op \in Bin, i, j \in 1..N : Build2(op, i, j)
           \/ Free /\ \E i \in 1..N : MakeFree(i)
Spec == Init /\ [][Next]_<<nodes, steps, warn>>

(* ---- properties ------------------------------------------------------------- *)
Acyclic == \A i \in 1..N : \A k \in DOMAIN nodes[i].pars : nodes[i].pars[k] < i
RECURSIVE Close(_)                  \* ancestors once more, as a closure of the parent relation
Close(S) == LET T == S \cup UNION {{nodes[i].pars[k] : k \in DOMAIN nodes[i].pars} : i \in S} IN IF T = S THEN S ELSE Close(T)
AncOK == \A i \in 1..N : Anc(i) = Close({i}) /\ (DepAnc(i) = {} <=> IsFree(i)) /\ FreeAnc(i) # {}
(* every node whose construction chain shares nothing uses every free variable at most once, *)
(* and a warning is due exactly for the nodes where some ancestor is reached twice            *)
Shared(i) == Len(nodes[i].pars) = 2 /\ Anc(nodes[i].pars[1]) \cap Anc(nodes[i].pars[2]) # {}
TreeOK == \A i \in 1..N : (\A a \in Anc(i) : ~Shared(a)) <=> (\A b \in FreeAnc(i) : Occ(i, b) = 1)
(* the value depends on the free ancestors only: recomputing it from them gives the same *)
RECURSIVE ReVal(_)
ReVal(i) == LET n == nodes[i]  p == n.pars IN
  IF p = <<>> THEN n.val
  ELSE IF Len(p) = 2 THEN Val2(n.op, ReVal(p[1]), ReVal(p[2]))
  ELSE IF n.c = <<>> THEN Val1(n.op, ReVal(p[1])) ELSE ValC(n.op, ReVal(p[1]), n.c)
ValOK == \A i \in 1..N : ReVal(i) = nodes[i].val
SetSeq(S) == LET RECURSIVE F(_, _)
                 F(k, acc) == IF k > N THEN acc ELSE F(k + 1, IF k \in S THEN Append(acc, k) ELSE acc)
             IN F(1, <<>>)
Obs(i) == [anc |-> SetSeq(Anc(i)), free |-> SetSeq(FreeAnc(i)), dep |-> SetSeq(DepAnc(i)), pars |-> nodes[i].pars,
           val |-> nodes[i].val, occ |-> [k \in 1..Cardinality(Bases) |-> Occ(i, k)]]
Freed == \E k \in DOMAIN steps : steps[k].op = "make_free"
EmitDag == steps = <<>> \/
   Emit([kind |-> "dag", bases |-> [k \in 1..Cardinality(Bases) |-> BaseSeq[k]], steps |-> steps, warn |-> warn, freed |-> Freed,
         obs |-> IF Freed THEN [i \in 1..N |-> Obs(i)] ELSE <<Obs(N)>>])
=============================================================================
