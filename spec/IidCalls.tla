------------------------------ MODULE IidCalls ------------------------------
(* C09, second part.  The dependence-warning setting over a history of       *)
(* aggregate calls, successful and failing, and of changes by the user: a    *)
(* call switches the warning off while it works and restores it on every     *)
(* path.                                                                     *)
EXTENDS Integers, Sequences, Emit
CONSTANTS MaxLen
VARIABLES warn, saved, busy, hist, init
vars == <<warn, saved, busy, hist, init>>
Init == init \in BOOLEAN /\ warn = init /\ saved = init /\ busy = <<>> /\ hist = <<>>
Call(f, all, fails) == /\ busy = <<>> /\ Len(hist) < MaxLen
                       /\ saved' = warn /\ warn' = FALSE
                       /\ busy' = <<f, all, fails>> /\ UNCHANGED <<hist, init>>
Return == /\ busy # <<>>
          /\ warn' = saved /\ busy' = <<>>
          /\ hist' = Append(hist, <<"call", busy[1], IF busy[3] THEN "fails" ELSE "ok", busy[2], saved>>)
          /\ UNCHANGED <<saved, init>>
Set(b) == /\ busy = <<>> /\ Len(hist) < MaxLen /\ warn # b /\ warn' = b
          /\ hist' = Append(hist, <<"set", b, b>>) /\ UNCHANGED <<saved, busy, init>>
Next == \/ \E f \in {"sum", "prod", "average"}, a \in BOOLEAN, x \in BOOLEAN : Call(f, a, x)
        \/ Return \/ \E b \in BOOLEAN : Set(b)
Spec == Init /\ [][Next]_vars
(* the setting visible to the user is what the user last chose *)
Chosen == LET S == {i \in 1..Len(hist) : hist[i][1] = "set"}
          IN IF S = {} THEN init ELSE hist[CHOOSE i \in S : \A j \in S : j <= i][2]
Restored == busy = <<>> => warn = Chosen
Off == busy # <<>> => warn = FALSE
EmitInv == busy # <<>> \/ Len(hist) # MaxLen \/ Emit([kind |-> "calls", init |-> init, hist |-> hist])
=============================================================================
