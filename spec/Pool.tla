-------------------------------- MODULE Pool --------------------------------
(* C15.  Evaluation of an operation at its nodes, one after the other or by  *)
(* a pool of workers.  The setting may be switched at any time between two   *)
(* operations.  A pool is opened when an operation first needs it while the  *)
(* setting is on, at most once; workers evaluate operations that arise while *)
(* they work one after the other.  Whatever the schedule, the result of an   *)
(* operation is the sequence of the values at its nodes, in order.           *)
EXTENDS Naturals, Sequences, FiniteSets, Emit
CONSTANTS Ops, Workers, Tasks, MaxHist, Sched
VARIABLES par, pool, created, mode, op, todo, run, inner, done, order, hist, out

vars == <<par, pool, created, mode, op, todo, run, inner, done, order, hist, out>>
F(o, t) == <<o, t>>                   \* the value of operation o at node t
Idle == mode = "idle"
Nobody == [w \in Workers |-> 0]
Init == /\ par \in BOOLEAN /\ pool = FALSE /\ created = 0 /\ mode = "idle" /\ op = "" /\ todo = {}
        /\ run = Nobody /\ inner = [w \in Workers |-> FALSE] /\ done = <<>> /\ order = <<>> /\ out = <<>>
        /\ hist = <<[e |-> IF par THEN "on" ELSE "off", order |-> <<>>, pool |-> FALSE]>>
Log(e, ord, p) == hist' = Append(hist, [e |-> e, order |-> ord, pool |-> p])
Switch == /\ Idle /\ Len(hist) < MaxHist
          /\ par' = ~par /\ Log(IF par' THEN "on" ELSE "off", <<>>, pool)
          /\ UNCHANGED <<pool, created, mode, op, todo, run, inner, done, order, out>>
Start(o) == /\ Idle /\ Len(hist) < MaxHist
            /\ mode' = (IF par THEN "pool" ELSE "serial")
            /\ pool' = (pool \/ par)
            /\ created' = created + (IF par /\ ~pool THEN 1 ELSE 0)
            /\ op' = o /\ todo' = 1..Tasks /\ done' = [t \in 1..Tasks |-> <<>>] /\ order' = <<>>
            /\ UNCHANGED <<par, run, inner, hist, out>>
Least(S) == CHOOSE t \in S : \A u \in S : t <= u
SerialStep == /\ mode = "serial" /\ todo # {}
              /\ LET t == Least(todo) IN /\ done' = [done EXCEPT ![t] = F(op, t)] /\ todo' = todo \ {t} /\ order' = Append(order, t)
              /\ UNCHANGED <<par, pool, created, mode, op, run, inner, hist, out>>
Take(w) == /\ mode = "pool" /\ run[w] = 0 /\ todo # {}
           /\ run' = [run EXCEPT ![w] = Least(todo)] /\ todo' = todo \ {Least(todo)}
           /\ UNCHANGED <<par, pool, created, mode, op, inner, done, order, hist, out>>
(* evaluation at a node needs another operation: done on the spot, no pool is opened *)
Nested(w) == /\ mode = "pool" /\ run[w] # 0 /\ ~inner[w]
             /\ inner' = [inner EXCEPT ![w] = TRUE]
             /\ UNCHANGED <<par, pool, created, mode, op, todo, run, done, order, hist, out>>
Finish(w) == /\ mode = "pool" /\ run[w] # 0
             /\ done' = [done EXCEPT ![run[w]] = F(op, run[w])] /\ order' = Append(order, run[w])
             /\ run' = [run EXCEPT ![w] = 0] /\ inner' = [inner EXCEPT ![w] = FALSE]
             /\ UNCHANGED <<par, pool, created, mode, op, todo, hist, out>>
End == /\ mode # "idle" /\ todo = {} /\ run = Nobody
       /\ out' = Append(out, <<op, done>>) /\ mode' = "idle" /\ Log(op, IF Sched THEN order ELSE <<>>, pool)
       /\ op' = "" /\ done' = <<>> /\ order' = <<>>
       /\ UNCHANGED <<par, pool, created, todo, run, inner>>
Next == Switch \/ (\E o \in Ops : Start(o)) \/ SerialStep \/ (\E w \in Workers : Take(w) \/ (Sched /\ Nested(w)) \/ Finish(w)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(SerialStep) /\ WF_vars(End) /\ (\A w \in Workers : WF_vars(Take(w)) /\ WF_vars(Finish(w)))

(* ---- properties ---- *)
OnePool == created <= 1 /\ (pool <=> created = 1)
OnlyWhenOn == pool => \E k \in DOMAIN hist : hist[k].e = "on"
InOrder == \A k \in DOMAIN out : out[k][2] = [t \in 1..Tasks |-> F(out[k][1], t)]
NothingLost == mode # "idle" => {t \in 1..Tasks : done[t] # <<>>} \cup todo \cup ({run[w] : w \in Workers} \ {0}) = 1..Tasks
Ends == mode # "idle" ~> mode = "idle"
EmitInv == ~(Idle /\ Len(hist) = MaxHist) \/ Emit([hist |-> hist])
=============================================================================
