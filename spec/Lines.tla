------------------------------ MODULE Lines -------------------------------
(* Integrals over finite intervals, half-lines and the line: an interval is  *)
(* cut into pieces, each given to a routine that suits it; the integral of   *)
(* every piece is a difference of antiderivatives, so cutting changes        *)
(* nothing.  Antiderivatives are sums of terms <<coef, name, argument>>,     *)
(* names standing for the usual functions (evaluated by the harness).        *)
EXTENDS Rat, FiniteSets, TLC, Emit

Pts == << <<-1000, 0>>, <<-300, 1>>, <<-7, 2>>, <<-1, 1>>, <<0, 1>>, <<1, 4>>, <<2, 1>>, <<50, 1>>, <<2000, 1>>, <<1000, 0>> >>
NP == Len(Pts)
MInf == 1
PInf == NP
Zero == 5
CONSTANTS MaxCuts, FunSet

(* name, break points it must be cut at, pole at zero, needs finite ends     *)
FS == [cauchy  |-> [cut |-> {}, pole |-> FALSE, fin |-> FALSE, narrow |-> FALSE],
       cauchy2 |-> [cut |-> {}, pole |-> FALSE, fin |-> FALSE, narrow |-> FALSE],
       laplace |-> [cut |-> {Zero}, pole |-> FALSE, fin |-> FALSE, narrow |-> TRUE],
       gauss   |-> [cut |-> {}, pole |-> FALSE, fin |-> FALSE, narrow |-> TRUE],
       tail2   |-> [cut |-> {Zero}, pole |-> FALSE, fin |-> FALSE, narrow |-> FALSE],
       tail32  |-> [cut |-> {Zero}, pole |-> FALSE, fin |-> FALSE, narrow |-> FALSE],
       pole12  |-> [cut |-> {Zero}, pole |-> TRUE, fin |-> FALSE, narrow |-> FALSE],
       pole34  |-> [cut |-> {Zero}, pole |-> TRUE, fin |-> TRUE, narrow |-> FALSE],
       ramp   |-> [cut |-> {}, pole |-> FALSE, fin |-> TRUE, narrow |-> FALSE]]

(* antiderivative at point i, as terms; even functions have odd ones         *)
Neg(ts) == [k \in 1..Len(ts) |-> <<RNeg(ts[k][1]), ts[k][2], ts[k][3]>>]
Pos(f, i) == LET x == Pts[i] inf == i = PInf
             IN CASE f = "laplace" -> IF inf THEN << <<R1, "one", R0>> >> ELSE << <<R1, "one", R0>>, <<RI(-1), "exp", RNeg(x)>> >>
                  [] f = "gauss" -> IF inf THEN << <<<<1, 2>>, "sqrtpi", R0>> >> ELSE << <<<<1, 2>>, "sqrtpierf", x>> >>
                  [] f = "tail2" -> << <<IF inf THEN R1 ELSE RDiv(x, RAdd(R1, x)), "one", R0>> >>
                  [] f = "tail32" -> IF inf THEN << <<RI(2), "one", R0>> >> ELSE << <<RI(2), "one", R0>>, <<RI(-2), "rsqrt", RAdd(R1, x)>> >>
                  [] f = "pole12" -> IF inf THEN << <<R1, "pi", R0>> >> ELSE << <<RI(2), "atansqrt", x>> >>
                  [] f = "pole34" -> << <<RI(4), "root4", x>> >>
Mirror(i) == \* antiderivative at minus the point; points are not symmetric
             IF i = MInf THEN <<1000, 0>> ELSE RNeg(Pts[i])
PosAt(f, x) == IF x = <<1000, 0>> THEN Pos(f, PInf)
               ELSE CASE f = "laplace" -> << <<R1, "one", R0>>, <<RI(-1), "exp", RNeg(x)>> >>
                      [] f = "gauss" -> << <<<<1, 2>>, "sqrtpierf", x>> >>
                      [] f = "tail2" -> << <<RDiv(x, RAdd(R1, x)), "one", R0>> >>
                      [] f = "tail32" -> << <<RI(2), "one", R0>>, <<RI(-2), "rsqrt", RAdd(R1, x)>> >>
                      [] f = "pole12" -> << <<RI(2), "atansqrt", x>> >>
                      [] f = "pole34" -> << <<RI(4), "root4", x>> >>
Cauchy(i, m, s) == IF i = PInf THEN << <<RMul(s, <<1, 2>>), "pi", R0>> >>
                   ELSE IF i = MInf THEN << <<RMul(s, <<-1, 2>>), "pi", R0>> >>
                   ELSE << <<s, "atan", RDiv(RSub(Pts[i], m), s)>> >>
Prim(f, i) == CASE f = "cauchy" -> Cauchy(i, R0, R1)
                [] f = "cauchy2" -> Cauchy(i, RI(2), <<1, 2>>)
                [] f = "ramp" -> << <<RMul(Pts[i], RSub(Pts[i], R1)), "one", R0>> >>  \* 2 x - 1
                [] OTHER -> IF i >= Zero THEN Pos(f, i) ELSE Neg(PosAt(f, Mirror(i)))
Integral(f, i, j) == Prim(f, j) \o Neg(Prim(f, i))

(* what a routine may be asked                                               *)
Fin(i) == i # MInf /\ i # PInf
Lev(i) == i                                    
Wide(i, j) == \/ (i >= 6 /\ j > i)              \* both positive
              \/ (j <= 4 /\ j > i)
ShortEnough(f, i, j) == CASE FS[f].narrow -> i >= 3 /\ j <= 7
                          [] OTHER -> i >= 3 /\ j <= 7
Routs(f, i, j) ==
  IF i = MInf /\ j = PInf THEN {"pminf"}
  ELSE IF j = PInf THEN IF f \in {"pole12"} /\ i = Zero THEN {} ELSE (IF i >= 4 THEN {"pinf"} ELSE {}) \cup (IF i >= 6 /\ f \in {"tail2", "cauchy", "cauchy2"} THEN {"wide"} ELSE {})
  ELSE IF i = MInf THEN IF f \in {"pole12"} /\ j = Zero THEN {} ELSE (IF j <= 7 THEN {"minf"} ELSE {}) \cup (IF j <= 4 /\ f \in {"tail2", "cauchy", "cauchy2"} THEN {"wide"} ELSE {})
  ELSE LET pl == FS[f].pole /\ i = Zero
           pr == FS[f].pole /\ j = Zero
       IN IF pl THEN {"poleP"} ELSE IF pr THEN {"poleN"}
          ELSE (IF Wide(i, j) THEN {"wide"} ELSE {})
               \cup (IF ShortEnough(f, i, j) THEN {"fejer", "Xn", "guess", "vector"} ELSE {})
               \cup (IF f # "ramp" /\ i >= Zero THEN {"pinfto"} ELSE {})
               \cup (IF f # "ramp" /\ j <= Zero THEN {"minfto"} ELSE {})

VARIABLES fun, pieces
vars == <<fun, pieces>>
Strict(S) == S
Init == /\ fun \in FunSet
        /\ \E i \in 1..NP, j \in 1..NP : /\ i < j
                                          /\ (FS[fun].fin => Fin(i) /\ Fin(j))
                                          /\ pieces = <<<<i, j>>>>
Cut(k, c) == /\ pieces[k][1] < c /\ c < pieces[k][2]
             /\ pieces' = SubSeq(pieces, 1, k - 1) \o << <<pieces[k][1], c>>, <<c, pieces[k][2]>> >> \o SubSeq(pieces, k + 1, Len(pieces))
             /\ UNCHANGED fun
(* cuts from left to right, so that every set of cuts is reached once *)
Next == Len(pieces) <= MaxCuts /\ \E c \in 1..NP : Cut(Len(pieces), c)
Spec == Init /\ [][Next]_vars

Legal == \A c \in FS[fun].cut : \A k \in 1..Len(pieces) : ~(pieces[k][1] < c /\ c < pieces[k][2])
Served == Legal /\ \A k \in 1..Len(pieces) : Routs(fun, pieces[k][1], pieces[k][2]) # {}
(* telescoping: the terms at inner cuts cancel *)
RECURSIVE All(_)
All(k) == IF k > Len(pieces) THEN <<>> ELSE Integral(fun, pieces[k][1], pieces[k][2]) \o All(k + 1)
Coef(ts, n, a) == RSumSeq([k \in 1..Len(ts) |-> IF ts[k][2] = n /\ ts[k][3] = a THEN ts[k][1] ELSE R0])
CutsCancel == LET ts == All(1) w == Integral(fun, pieces[1][1], pieces[Len(pieces)][2])
              IN \A k \in 1..Len(ts) : Coef(ts, ts[k][2], ts[k][3]) = Coef(w, ts[k][2], ts[k][3])
Joined == \A k \in 1..(Len(pieces) - 1) : pieces[k][2] = pieces[k + 1][1]
EmitInv == Served => Emit([fun |-> fun, total |-> Integral(fun, pieces[1][1], pieces[Len(pieces)][2]),
                           pieces |-> [k \in 1..Len(pieces) |-> [a |-> Pts[pieces[k][1]], b |-> Pts[pieces[k][2]],
                                       routs |-> Routs(fun, pieces[k][1], pieces[k][2]), terms |-> Integral(fun, pieces[k][1], pieces[k][2])]]])
=============================================================================
