------------------------------ MODULE MonRule ------------------------------
(* The stopping rule of adaptive refinement (convergence_monitor) as a state *)
(* machine over the history of (error estimate, value) pairs, in exact       *)
(* rational arithmetic, and the choice of the result that is reported.       *)
EXTENDS Rat, FiniteSets, TLC, Emit

(* comparison through continued fractions: never leaves 32 bits *)
RECURSIVE QLt(_, _, _, _)
QLt(a, b, c, d) == LET i == a \div b j == c \div d
                   IN IF i # j THEN i < j
                      ELSE LET r == a - i * b s == c - j * d
                           IN IF r = 0 THEN s # 0 ELSE IF s = 0 THEN FALSE ELSE QLt(d, s, b, r)
Lt(x, y) == QLt(x[1], x[2], y[1], y[2])
Le(x, y) == ~Lt(y, x)

LMax(a, b) == IF Lt(a, b) THEN b ELSE a
(* p: [abstol, reltol, ratio: rationals; minquit, noimp: naturals; force]    *)
MStart == [h |-> <<>>, good |-> 1, noimp |-> 0, conv |-> FALSE, stop |-> FALSE]

MTol(p, y) == LMax(p.abstol, RMul(RAbs(y), p.reltol))
MAdd(p, st, ae, y) ==
  LET h == Append(st.h, <<ae, y>>)
      n == Len(h)
      good == IF n = 1 THEN 1 ELSE st.good
  IN IF Le(ae, MTol(p, y)) /\ (~p.force \/ y[1] # 0)
     THEN [st EXCEPT !.h = h, !.good = good, !.conv = TRUE, !.stop = TRUE]
     ELSE LET better == Lt(ae, RMul(p.ratio, h[good][1]))
              k == IF better THEN 0 ELSE st.noimp + 1
          IN [h |-> h, good |-> IF better THEN n ELSE good, noimp |-> k, conv |-> FALSE,
              stop |-> n >= MaxI(2, p.minquit) /\ k >= p.noimp]

(* relative error as <<0, r>>, or <<1, R0>> (larger than all) for a zero value *)
RelErr(e) == IF e[2][1] = 0 THEN <<1, R0>> ELSE <<0, RDiv(e[1], RAbs(e[2]))>>
RelLess(d, a, b) == \* a < d * b
  IF a[1] = 1 THEN FALSE ELSE IF b[1] = 1 THEN TRUE ELSE Lt(a[2], RMul(d, b[2]))

RECURSIVE BestFrom(_, _, _, _)
BestFrom(h, d, i, b) == IF i > Len(h) THEN b
                        ELSE BestFrom(h, d, i + 1, IF RelLess(d, RelErr(h[i]), RelErr(h[b])) THEN i ELSE b)
MBest(st, d) == IF st.conv THEN Len(st.h) ELSE BestFrom(st.h, d, 2, 1)

PAR == <<
  [abstol |-> <<1, 1>>, reltol |-> R0,       ratio |-> <<1, 2>>, minquit |-> 2, noimp |-> 2, force |-> FALSE],
  [abstol |-> R0,       reltol |-> <<1, 2>>, ratio |-> <<1, 2>>, minquit |-> 3, noimp |-> 1, force |-> FALSE],
  [abstol |-> <<1, 2>>, reltol |-> <<1, 4>>, ratio |-> <<1, 4>>, minquit |-> 1, noimp |-> 3, force |-> TRUE],
  [abstol |-> <<1, 1>>, reltol |-> <<1, 8>>, ratio |-> <<3, 4>>, minquit |-> 4, noimp |-> 2, force |-> TRUE],
  [abstol |-> <<1, 4>>, reltol |-> R0,       ratio |-> <<1, 1>>, minquit |-> 2, noimp |-> 1, force |-> FALSE],
  [abstol |-> R0,       reltol |-> R0,       ratio |-> <<1, 2>>, minquit |-> 10000, noimp |-> 2, force |-> FALSE] >>
DECR == << <<3, 4>>, <<1, 2>>, R1 >>

=============================================================================
