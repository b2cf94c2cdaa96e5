------------------------------ MODULE MCLocation ------------------------------
(* How a message finds a migratable object: every node has a record of where  *)
(* it believes the object to be; the home's is authoritative, the others' are  *)
(* caches and forwarding pointers that may be lost at any time.  Messages      *)
(* known to be small are routed at once (Send); for others the home is asked   *)
(* first (Query).  Each hop that had to forward is told where the message was  *)
(* delivered in the end.                                                       *)
(* Overlap = FALSE: the object moves only when no message is under way, as     *)
(* load balancing does.  With Overlap = TRUE, Delivered fails: a delayed       *)
(* notice may overwrite a newer record and close a cycle of records.           *)
EXTENDS Integers, FiniteSets
CONSTANTS N, NMsgs, Moves, Overlap, Forget
Nodes == 0 .. N - 1
Home == 0
None == -1
VARIABLES loc, to, rec, asks, net, pend, sent, count, moved, lost,
  busy    \* a move is not over yet: until all its notices have been handled
vars == <<loc, to, rec, asks, net, pend, sent, count, moved, lost, busy>>
Data(i, n, a) == [kind |-> "data", id |-> i, at |-> n, x |-> a]
Note(k, n, x) == [kind |-> k, id |-> 0, at |-> n, x |-> x]
Init ==
  /\ loc \in Nodes /\ to = None /\ rec = [n \in Nodes |-> IF n = loc THEN n ELSE None]
  /\ asks = [n \in Nodes |-> {}] /\ pend = [n \in Nodes |-> {}]
  /\ net = (IF loc = Home THEN {} ELSE {Note("update", Home, loc)})
  /\ sent = 0 /\ count = [i \in 1 .. NMsgs |-> 0] /\ moved = 0 /\ lost = 0 /\ busy = FALSE
Tell(n, a) == IF a \notin {None, n} THEN {Note("eager", a, n)} ELSE {}
\* message i is at node n, asked for by a, and node n believes the object at r
Hop(n, r, i, a, base) ==
  IF r = n
    THEN IF loc = n
      THEN /\ count' = [count EXCEPT ![i] = @ + 1] /\ net' = base \cup Tell(n, a) /\ UNCHANGED <<asks, pend>>
      ELSE /\ pend' = [pend EXCEPT ![n] = @ \cup {[id |-> i, x |-> a]}] /\ net' = base /\ UNCHANGED <<asks, count>>
    ELSE /\ asks' = [asks EXCEPT ![n] = IF a = None THEN @ ELSE @ \cup {a}]
         /\ net' = base \cup {Data(i, r, n)} /\ UNCHANGED <<count, pend>>
Believes(n) == IF loc = n THEN n ELSE IF rec[n] # None THEN rec[n] ELSE Home
Quiet == net = {} /\ \A n \in Nodes : pend[n] = {}
Send(n) ==
  /\ sent < NMsgs /\ (Overlap \/ ~busy) /\ sent' = sent + 1
  /\ Hop(n, Believes(n), sent + 1, None, net) /\ UNCHANGED <<loc, to, rec, moved, lost, busy>>
Query(n) ==
  /\ sent < NMsgs /\ (Overlap \/ ~busy) /\ sent' = sent + 1
  /\ IF loc = n \/ rec[n] # None
       THEN Hop(n, Believes(n), sent + 1, None, net)
       ELSE /\ pend' = [pend EXCEPT ![n] = @ \cup {[id |-> sent + 1, x |-> None]}]
            /\ net' = (net \cup (IF n = Home THEN {} ELSE {Note("ask", Home, n)}))
            /\ UNCHANGED <<asks, count>>
  /\ UNCHANGED <<loc, to, rec, moved, lost, busy>>
\* everything waiting at n goes to node r (r = n: it is delivered here)
Release(n, r, base) ==
  LET W == pend[n]  ids == {w.id : w \in {v \in W : v.id > 0}} IN
  /\ pend' = [pend EXCEPT ![n] = {}]
  /\ LET Q == {w \in W : w.id = 0}   \* nodes that asked the home
     IN net' = base \cup {Note("update", q.x, r) : q \in Q}
               \cup (IF r = n THEN UNION {Tell(n, w.x) : w \in W \ Q} ELSE {Data(w.id, r, n) : w \in W \ Q})
  /\ IF r = n THEN count' = [i \in DOMAIN count |-> count[i] + (IF i \in ids THEN 1 ELSE 0)] /\ UNCHANGED asks
     ELSE asks' = [asks EXCEPT ![n] = @ \cup {w.x : w \in {v \in W : v.id > 0 /\ v.x # None}}] /\ UNCHANGED count
Recv(m) ==
  LET n == m.at  rest == net \ {m} IN
  /\ m \in net
  /\ CASE m.kind = "data" -> Hop(n, Believes(n), m.id, m.x, rest) /\ UNCHANGED rec
       [] m.kind = "update" -> rec' = [rec EXCEPT ![n] = m.x] /\ Release(n, m.x, rest)
       [] m.kind = "eager" ->
            /\ rec' = [rec EXCEPT ![n] = m.x]
            /\ net' = rest \cup {Note("eager", a, m.x) : a \in asks[n] \ {n}} /\ asks' = [asks EXCEPT ![n] = {}]
            /\ UNCHANGED <<count, pend>>
       [] m.kind = "ask" ->
            IF loc = n \/ rec[n] # None
              THEN net' = rest \cup {Note("update", m.x, Believes(n))} /\ UNCHANGED <<rec, asks, count, pend>>
              ELSE pend' = [pend EXCEPT ![n] = @ \cup {[id |-> 0, x |-> m.x]}] /\ net' = rest /\ UNCHANGED <<rec, asks, count>>
  /\ UNCHANGED <<loc, to, sent, moved, lost, busy>>
Leave(d) ==
  /\ moved < Moves /\ loc # None /\ loc # d /\ (Overlap \/ Quiet) /\ moved' = moved + 1 /\ busy' = TRUE
  /\ to' = d /\ loc' = None /\ rec' = [rec EXCEPT ![loc] = d]
  /\ UNCHANGED <<asks, net, pend, sent, count, lost>>
Arrive ==
  /\ to # None /\ loc' = to /\ to' = None /\ rec' = [rec EXCEPT ![to] = to]
  /\ Release(to, to, net \cup (IF to = Home THEN {} ELSE {Note("update", Home, to)}))
  /\ UNCHANGED <<sent, moved, lost, busy>>
\* a cache entry is evicted; the home's directory is not a cache
Evict(n) == n # Home /\ lost < Forget /\ rec[n] # None /\ lost' = lost + 1 /\ rec' = [rec EXCEPT ![n] = None] /\ UNCHANGED <<loc, to, asks, net, pend, sent, count, moved, busy>>
Settle == busy /\ to = None /\ Quiet /\ busy' = FALSE /\ UNCHANGED <<loc, to, rec, asks, net, pend, sent, count, moved, lost>>
Deliver == Settle \/ Arrive \/ \E m \in net : Recv(m)
Next == Deliver \/ (\E n \in Nodes : Send(n) \/ Query(n) \/ Leave(n) \/ Evict(n))
Spec == Init /\ [][Next]_vars /\ WF_vars(Arrive) /\ WF_vars(Settle) /\ \A k \in {"data", "update", "eager", "ask"}, n \in Nodes : WF_vars(\E m \in net : m.kind = k /\ m.at = n /\ Recv(m))
AtMostOnce == \A i \in DOMAIN count : count[i] <= 1
\* when nothing is under way, the home knows
HomeKnows == (Quiet /\ loc # None) => rec[Home] = loc
\* no record refers to a node the object never was on: it leads to the object
Leads == (~Overlap /\ Quiet /\ loc # None) => \A n \in Nodes : rec[n] # None =>
   LET Step[k \in 0 .. N] == IF k = 0 THEN n ELSE IF loc = Step[k - 1] THEN loc ELSE IF rec[Step[k - 1]] = None THEN Home ELSE rec[Step[k - 1]] IN Step[N] = loc
Delivered == \A i \in 1 .. NMsgs : (sent >= i) ~> (count[i] = 1)
=============================================================================
