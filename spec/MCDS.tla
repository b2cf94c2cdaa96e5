-------------------------------- MODULE MCDS --------------------------------
(* Dijkstra-Scholten detection for one rooted epoch, variable for variable   *)
(* as in TermDS: credit C and debt D for remote messages, lC and lD for local *)
(* ones, the list of acknowledgements still owed (its head is the engaging    *)
(* parent's), and a single acknowledgement attempt per event.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxMsg
Nodes == 0 .. N - 1       \* node 0 is the root
NoP == -1
VARIABLES open, net, run, sent, acks, ds, term
vars == <<open, net, run, sent, acks, ds, term>>
D0 == [C |-> 0, D |-> 0, lC |-> 0, lD |-> 0, par |-> NoP, emc |-> 0, req |-> 0, ackP |-> 0, ackA |-> 0, sum |-> 0, out |-> << >>]
\* one event's effect on a node: its new state and the acknowledgements it sends
Init ==
  /\ open = TRUE /\ net = {} /\ run = {} /\ sent = 0 /\ acks = [n \in Nodes |-> [k \in 1 .. MaxMsg + 1 |-> 0]] /\ term = 0
  /\ ds = [n \in Nodes |-> IF n = 0 THEN [D0 EXCEPT !.out = <<[p |-> 0, n |-> 0]>>, !.lD = 1] ELSE D0]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the result of one handler at a node: state, acks [to, n], root terminated?
TryAck(s, n) ==
  IF Len(s.out) <= 1 THEN [s |-> s, a |-> << >>]
  ELSE LET a == Last(s.out) IN
       IF s.C >= a.n
       THEN [s |-> [s EXCEPT !.C = @ - a.n, !.out = Front(@),
                             !.ackP = IF a.p = s.par THEN @ + a.n ELSE @, !.ackA = IF a.p = s.par THEN @ ELSE @ + a.n],
             a |-> <<[to |-> a.p, from |-> n, n |-> a.n]>>]
       ELSE [s |-> s, a |-> << >>]
TryLast(r, n) ==
  LET s == r.s IN
  IF Len(s.out) # 1 \/ s.lC # s.lD THEN [s |-> s, a |-> r.a, t |-> FALSE]
  ELSE IF s.req - s.ackP = s.emc /\ s.D = 0 /\ s.C = s.emc
  THEN LET a == Last(s.out) IN
       [s |-> [s EXCEPT !.out = << >>, !.par = NoP, !.C = 0, !.ackP = 0, !.ackA = 0, !.req = 0, !.emc = 0, !.sum = 0],
        a |-> IF a.p = n THEN r.a ELSE Append(r.a, [to |-> s.par, from |-> n, n |-> s.emc]),
        t |-> a.p = n]
  ELSE [s |-> s, a |-> r.a, t |-> FALSE]
AddReq(out, p, c) ==
  IF \E i \in 2 .. Len(out) : out[i].p = p
  THEN LET i == CHOOSE i \in 2 .. Len(out) : out[i].p = p /\ \A j \in 2 .. i - 1 : out[j].p # p
       IN [out EXCEPT ![i].n = @ + c]
  ELSE Append(out, [p |-> p, n |-> c])
Processed(s0, n, p, c) ==
  LET self == p = n
      s1 == IF self THEN [s0 EXCEPT !.lC = @ + c] ELSE [s0 EXCEPT !.C = @ + c, !.sum = @ + c]
      s2 == IF s1.out = << >> /\ ~self THEN [s1 EXCEPT !.par = p, !.emc = c, !.out = <<[p |-> p, n |-> c]>>]
            ELSE IF ~self THEN [s1 EXCEPT !.out = AddReq(@, p, c)] ELSE s1
      s3 == IF p = s2.par THEN [s2 EXCEPT !.req = @ + c] ELSE s2
  IN TryLast(TryAck(s3, n), n)
\* acks[to][k]: acknowledgements of k messages under way to a node
RECURSIVE Put(_, _)
Put(b, a) == IF a = << >> THEN b ELSE Put([b EXCEPT ![a[1].to][a[1].n] = @ + 1], Tail(a))
Apply(n, r) ==
  /\ ds' = [ds EXCEPT ![n] = r.s]
  /\ acks' = Put(acks, r.a)
  /\ term' = IF r.t THEN term + 1 ELSE term
\* a message: D (or lD) at the sender when it is sent; at its arrival the
\* context of its handler produces locally, then the sender's credit is
\* counted, and the local unit is consumed when the handler is over
Send(n, d) ==
  /\ sent < MaxMsg /\ ((n = 0 /\ open) \/ \E h \in run : h.at = n)
  /\ net' = net \cup {[id |-> sent, to |-> d, from |-> n]} /\ sent' = sent + 1
  /\ ds' = [ds EXCEPT ![n] = IF d = n THEN [@ EXCEPT !.lD = @ + 1] ELSE [@ EXCEPT !.D = @ + 1]]
  /\ UNCHANGED <<open, run, acks, term>>
Arrive(m) ==
  /\ m \in net /\ net' = net \ {m} /\ run' = run \cup {[id |-> m.id, at |-> m.to]}
  /\ LET s == [ds[m.to] EXCEPT !.lD = @ + 1] IN Apply(m.to, Processed(s, m.to, m.from, 1))
  /\ UNCHANGED <<open, sent>>
Finish(h) ==
  /\ h \in run /\ run' = run \ {h} /\ Apply(h.at, Processed(ds[h.at], h.at, h.at, 1))
  /\ UNCHANGED <<open, net, sent>>
FinishedEpoch ==
  /\ open /\ open' = FALSE /\ Apply(0, Processed(ds[0], 0, 0, 1))
  /\ UNCHANGED <<net, run, sent>>
GotAck(n, k) ==
  /\ acks[n][k] > 0
  /\ LET r == TryLast([s |-> [ds[n] EXCEPT !.D = @ - k], a |-> << >>], n) IN
     /\ ds' = [ds EXCEPT ![n] = r.s]
     /\ acks' = Put([acks EXCEPT ![n][k] = @ - 1], r.a)
     /\ term' = IF r.t THEN term + 1 ELSE term
  /\ UNCHANGED <<open, net, run, sent>>
AnyAck == \E n \in Nodes, k \in 1 .. MaxMsg + 1 : GotAck(n, k)
Next == (\E n, d \in Nodes : Send(n, d)) \/ (\E m \in net : Arrive(m)) \/ (\E h \in run : Finish(h)) \/ FinishedEpoch \/ AnyAck
Spec == Init /\ [][Next]_vars /\ WF_vars(\E m \in net : Arrive(m)) /\ WF_vars(\E h \in run : Finish(h)) /\ WF_vars(FinishedEpoch) /\ WF_vars(AnyAck)
Safe == term > 0 => ~open /\ net = {} /\ run = {}
Once == term <= 1
DSInv == \A n \in Nodes : ds[n].C = ds[n].sum - (ds[n].ackA + ds[n].ackP) /\ ds[n].lC <= ds[n].lD /\ ds[n].D >= 0
Live == <>(term = 1)
=============================================================================
