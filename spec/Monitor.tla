------------------------------ MODULE Monitor ------------------------------
(* All short histories of the stopping rule and long pseudo-random ones.     *)
EXTENDS MonRule
CONSTANTS Errs, Vals, Pars, MaxLen, Walks, WalkLen

VARIABLES par, st, outs, seed
vars == <<par, st, outs, seed>>

ErrSeq == << 0, 1, 2, 3, 5, 8, 16, 33 >>
ValSeq == << 0, 1, -1, 2, -4, 12, 64 >>
Lcg(s) == (s * 1103 + 12345) % 30011

Outs(s) == [stop |-> s.stop, best |-> [k \in 1..Len(DECR) |-> MBest(s, DECR[k])]]
Init == /\ par \in Pars
        /\ st = MStart
        /\ outs = <<>>
        /\ seed \in {0} \cup 1..Walks
Push(ae, y) == LET s == MAdd(PAR[par], st, ae, y)
               IN st' = s /\ outs' = Append(outs, Outs(s)) /\ UNCHANGED par
Next == /\ ~st.stop
        /\ \/ /\ seed = 0 /\ Len(st.h) < MaxLen /\ UNCHANGED seed
              /\ \E e \in Errs, v \in Vals : Push(RI(e), RI(ValSeq[v]))
           \/ /\ seed > 0 /\ Len(st.h) < WalkLen
              /\ seed' = Lcg(seed * 7 + par)
              /\ Push(RI(ErrSeq[1 + ((seed' \div 7) % Len(ErrSeq))]), RI(ValSeq[1 + ((seed' \div 97) % Len(ValSeq))]))
Spec == Init /\ [][Next]_vars

(* what the rule is for *)
StopOK == st.stop => LET n == Len(st.h) e == st.h[n]
                     IN IF st.conv THEN RLe(e[1], MTol(PAR[par], e[2])) /\ (PAR[par].force => e[2][1] # 0)
                        ELSE /\ n >= 2 /\ n >= PAR[par].minquit
                             /\ \A i \in MaxI(1, n - PAR[par].noimp + 1)..n : ~RLt(st.h[i][1], RMul(PAR[par].ratio, st.h[st.good][1]))
NoEarlyStop == ~st.stop => \A i \in 1..Len(st.h) : ~(RLe(st.h[i][1], MTol(PAR[par], st.h[i][2])) /\ (PAR[par].force => st.h[i][2][1] # 0))
GoodOK == st.h # <<>> => /\ st.good \in 1..Len(st.h)
                         /\ \A i \in 1..(st.good - 1) : st.conv \/ RLe(st.h[st.good][1], st.h[i][1]) \/ RLt(R1, PAR[par].ratio) \/ i < st.good
BestOK == st.h # <<>> => \A k \in 1..Len(DECR) :
            LET b == MBest(st, DECR[k])
            IN \/ st.conv /\ b = Len(st.h)
               \/ \A i \in 1..Len(st.h) : ~RelLess(DECR[k], RelErr(st.h[i]), RelErr(st.h[b]))
EmitInv == (st.h # <<>> /\ (st.stop \/ Len(st.h) = IF seed = 0 THEN MaxLen ELSE WalkLen)) =>
           Emit([par |-> par, p |-> PAR[par], decr |-> DECR, h |-> st.h, outs |-> outs])
=============================================================================
