------------------------------ MODULE Session ------------------------------
(* C14.  A working session: variables are built, asked, printed, sampled and *)
(* combined in any order.  What a variable is follows from how it was built  *)
(* (its term) and from nothing else; descriptions are built when first       *)
(* needed, kept, and used for later answers and for the descriptions of      *)
(* variables computed from it; settings may be changed for the duration of   *)
(* one operation and are put back.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, Emit
CONSTANTS Contexts,     \* sequences of names of base variables
          Un, Bin,      \* sequences of operation names
          Ask, Ask2,    \* sequences of question names
          MaxOps, MaxLen, Seeds   \* Seeds = 0: all histories; else one pseudo-random history per seed
VARIABLES bases, nodes, hist, held, answer, settings, rnd

N == Len(nodes)
Base(k) == [op |-> "base", pars |-> <<>>, name |-> bases[k]]
RECURSIVE Term(_, _)
Term(g, k) == IF g[k].pars = <<>> THEN <<"base", k, g[k].name>>
              ELSE <<g[k].op>> \o [j \in DOMAIN g[k].pars |-> Term(g, g[k].pars[j])]

(* ---- descriptions ---------------------------------------------------------- *)
Kinds == {"pdf", "cdf", "inv"}
Needs(q) == CASE q \in {"str", "name", "sym", "rand", "rand1", "parents"} -> {}
              [] q \in {"cdf", "cdfp", "ccdf", "ccdfp", "hist"} -> {"cdf"}
              [] q \in {"quantile", "median", "medianad", "interval", "iqrange", "five", "randinv", "invp", "boxplot", "summary", "summary_map"} -> {"inv"}
              [] OTHER -> {"pdf"}
(* a held description remembers the term it was built from: read from the held descriptions it is built out of *)
RECURSIVE Build(_, _, _)
Build(h, k, d) ==
  IF h[k][d] # <<>> THEN h
  ELSE CASE d = "inv" -> LET h1 == Build(h, k, "cdf") IN [h1 EXCEPT ![k][d] = h1[k]["cdf"]]
         [] d = "cdf" -> LET h1 == Build(h, k, "pdf") IN [h1 EXCEPT ![k][d] = h1[k]["pdf"]]
         [] OTHER ->
            LET p == nodes[k].pars
                RECURSIVE All(_, _)
                All(hh, j) == IF j > Len(p) THEN hh ELSE All(Build(hh, p[j], "pdf"), j + 1)
                h1 == All(h, 1)
            IN [h1 EXCEPT ![k][d] = IF p = <<>> THEN <<"base", k, nodes[k].name>>
                                    ELSE <<nodes[k].op>> \o [j \in DOMAIN p |-> h1[p[j]]["pdf"]]]
RECURSIVE BuildAll(_, _, _)
BuildAll(h, k, D) == IF D = {} THEN h ELSE LET d == CHOOSE x \in D : TRUE IN BuildAll(Build(h, k, d), k, D \ {d})
None == [d \in Kinds |-> <<>>]

(* ---- events ----------------------------------------------------------------- *)
Event(e, i, j) == [e |-> e, i |-> i, j |-> j]
Ops == Cardinality({k \in DOMAIN hist : hist[k].e \in {Un[x] : x \in DOMAIN Un} \cup {Bin[x] : x \in DOMAIN Bin}})
Create(op, p) == /\ nodes' = Append(nodes, [op |-> op, pars |-> p, name |-> op])
                 /\ held' = Append(held, None)
                 /\ answer' = <<>>
                 (* operations on several copies switch the dependence warning off and on again *)
                 /\ settings' = settings
                 /\ hist' = Append(hist, Event(op, p[1], IF Len(p) > 1 THEN p[2] ELSE 0))
                 /\ UNCHANGED bases
Query(q, i, j) == LET h1 == BuildAll(held, i, Needs(q))
                      h2 == IF j = 0 THEN h1 ELSE BuildAll(h1, j, {"pdf"})
                  IN /\ held' = h2
                     /\ answer' = <<q, IF Needs(q) = {} THEN Term(nodes, i) ELSE h2[i][CHOOSE d \in Needs(q) : TRUE],
                                       IF j = 0 THEN <<>> ELSE h2[j]["pdf"]>>
                     /\ hist' = Append(hist, Event(q, i, j))
                     /\ UNCHANGED <<bases, nodes, settings>>
Event1 == \/ \E x \in DOMAIN Un, i \in 1..N : Ops < MaxOps /\ Create(Un[x], <<i>>)
          \/ \E x \in DOMAIN Bin, i, j \in 1..N : Ops < MaxOps /\ Create(Bin[x], <<i, j>>)
          \/ \E x \in DOMAIN Ask, i \in 1..N : Query(Ask[x], i, 0)
          \/ \E x \in DOMAIN Ask2, i, j \in 1..N : Query(Ask2[x], i, j)
(* a pseudo-random walk: the next event is read off a congruential sequence *)
R1(r) == (r * 75 + 74) % 65537
R2(r) == R1(R1(r))
R3(r) == R1(R2(r))
Pick(r, n) == 1 + (r % n)
WalkEvent ==
  LET r1 == R1(rnd)  r2 == R2(rnd)  r3 == R3(rnd)
      i == IF r2 % 3 = 0 THEN N ELSE Pick(r2 \div 3, N)
      j == Pick(r3 \div 7, N)
      c == r1 % 16
  IN IF c < 3 /\ Ops < MaxOps THEN Create(Un[Pick(r1 \div 16, Len(Un))], <<i>>)
     ELSE IF c < 5 /\ Ops < MaxOps THEN Create(Bin[Pick(r1 \div 16, Len(Bin))], <<i, j>>)
     ELSE IF c = 5 THEN Query(Ask2[Pick(r1 \div 16, Len(Ask2))], i, j)
     ELSE Query(Ask[Pick(r1 \div 16, Len(Ask))], i, 0)

Start(b, r) == /\ bases = b /\ rnd = r
               /\ nodes = [k \in DOMAIN b |-> [op |-> "base", pars |-> <<>>, name |-> b[k]]]
               /\ hist = <<>> /\ answer = <<>> /\ settings = "initial"
               /\ held = [k \in DOMAIN b |-> None]
Init == IF Seeds = 0 THEN \E x \in DOMAIN Contexts : Start(Contexts[x], 0)
        ELSE \E s \in 1..Seeds : Start(Contexts[Pick(s, Len(Contexts))], R2(s * 37))
Next == /\ Len(hist) < MaxLen
        /\ IF Seeds = 0 THEN Event1 /\ UNCHANGED rnd ELSE WalkEvent /\ rnd' = R3(rnd)
vars == <<bases, nodes, hist, held, answer, settings, rnd>>
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------------- *)
(* what is held, and what is answered, is what the definition of the variable says *)
HeldOK == \A k \in 1..N, d \in Kinds : held[k][d] \in {<<>>, Term(nodes, k)}
HeldDown == \A k \in 1..N : /\ held[k]["inv"] # <<>> => held[k]["cdf"] # <<>>
                            /\ held[k]["cdf"] # <<>> => held[k]["pdf"] # <<>>
                            /\ held[k]["pdf"] # <<>> => \A j \in DOMAIN nodes[k].pars : held[nodes[k].pars[j]]["pdf"] # <<>>
AnswerOK == answer # <<>> => LET e == hist[Len(hist)] IN
              /\ answer[2] = Term(nodes, e.i)
              /\ answer[3] = IF e.j = 0 THEN <<>> ELSE Term(nodes, e.j)
(* operations never alter what is there, nothing held is lost or replaced, settings stay *)
Grows == /\ Len(nodes') >= N /\ \A k \in 1..N : nodes'[k] = nodes[k]
         /\ \A k \in 1..N, d \in Kinds : held[k][d] # <<>> => held'[k][d] = held[k][d]
         /\ settings' = settings
OnlyGrows == [][Grows]_vars
EmitInv == Len(hist) < MaxLen \/ Emit([bases |-> bases, hist |-> hist])
=============================================================================
