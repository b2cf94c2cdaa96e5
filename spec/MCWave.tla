------------------------------ MODULE MCWave ------------------------------
(* Four-counter wave detection for one epoch (TermState, propagateEpoch,     *)
(* propagateEpochExternal, receiveContinueSignal), over a workload that may  *)
(* send up to MaxMsg messages from any running handler or any not yet        *)
(* finished participant, every message in flight for any time.               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, MaxMsg
Nodes == 0 .. N - 1
Parent(n) == (n - 1) \div 2
\* wave numbers are used modulo W: two neighbouring ones are the most that coexist
W == 4
Succ(w) == (w + 1) % W
Kids(n) == {c \in Nodes : c # 0 /\ Parent(c) = n}
VARIABLES open,      \* participants that have not called finishedEpoch
          net,       \* [id, to] application messages in flight
          run,       \* [id, at] handlers running (a message being processed)
          sent,      \* number of messages sent so far
          lp, lc,    \* l_prod, l_cons of each node (monotone)
          g1, g2,    \* wave sums <<prod, cons>>: per node, and at the root
          rc, sub, cur, act, up, cont, term, told
vars == <<open, net, run, sent, lp, lc, g1, g2, rc, sub, cur, act, up, cont, term, told>>
app == <<open, net, run, sent>>
Init ==
  /\ open = Nodes /\ net = {} /\ run = {} /\ sent = 0
  /\ lp = [n \in Nodes |-> 1] /\ lc = [n \in Nodes |-> 0]      \* produce(epoch,1) at creation
  /\ g1 = [n \in Nodes |-> <<0, 0>>] /\ g2 = <<0, -1>>         \* g2 differs from any first wave
  /\ rc = [n \in Nodes |-> 0] /\ sub = [n \in Nodes |-> W - 1] /\ cur = [n \in Nodes |-> 0]
  /\ act = [n \in Nodes |-> FALSE] /\ up = {} /\ cont = {} /\ term = FALSE /\ told = {}
Send(n, d) ==
  /\ sent < MaxMsg /\ (n \in open \/ \E h \in run : h.at = n)
  /\ net' = net \cup {[id |-> sent, to |-> d]} /\ sent' = sent + 1
  /\ lp' = [lp EXCEPT ![n] = @ + 1]
  /\ UNCHANGED <<open, run, lc, g1, g2, rc, sub, cur, act, up, cont, term, told>>
Arrive(m) ==
  /\ net' = net \ {m} /\ run' = run \cup {[id |-> m.id, at |-> m.to]}
  /\ UNCHANGED <<open, sent, lp, lc, g1, g2, rc, sub, cur, act, up, cont, term, told>>
Finish(h) ==                                                    \* consume when the handler is over
  /\ run' = run \ {h} /\ lc' = [lc EXCEPT ![h.at] = @ + 1]
  /\ UNCHANGED <<open, net, sent, lp, g1, g2, rc, sub, cur, act, up, cont, term, told>>
FinishedEpoch(n) ==
  /\ n \in open /\ open' = open \ {n} /\ lc' = [lc EXCEPT ![n] = @ + 1] /\ act' = [act EXCEPT ![n] = TRUE]
  /\ UNCHANGED <<net, run, sent, lp, g1, g2, rc, sub, cur, up, cont, term, told>>
Ready(n) == act[n] /\ rc[n] = Cardinality(Kids(n)) /\ cur[n] = Succ(sub[n]) /\ n \notin told /\ ~(n = 0 /\ term)
\* counts are read when the node submits, also while handlers run there
Submit(n) ==
  /\ n # 0 /\ Ready(n)
  /\ up' = up \cup {[to |-> Parent(n), from |-> n, v |-> <<g1[n][1] + lp[n], g1[n][2] + lc[n]>>, w |-> cur[n]]}
  /\ g1' = [g1 EXCEPT ![n] = <<0, 0>>] /\ sub' = [sub EXCEPT ![n] = Succ(@)] /\ rc' = [rc EXCEPT ![n] = 0]
  /\ UNCHANGED <<app, lp, lc, g2, cur, act, cont, term, told>>
FromChild(m) ==
  /\ m \in up /\ up' = up \ {m}
  /\ g1' = [g1 EXCEPT ![m.to] = <<@[1] + m.v[1], @[2] + m.v[2]>>] /\ rc' = [rc EXCEPT ![m.to] = @ + 1]
  /\ UNCHANGED <<app, lp, lc, g2, sub, cur, act, cont, term, told>>
RootDecide ==
  /\ Ready(0)
  /\ LET p == g1[0][1] + lp[0]  c == g1[0][2] + lc[0] IN
     IF p = c /\ g2[1] = g2[2] /\ p = g2[1]
     THEN /\ term' = TRUE /\ told' = {0}
          /\ UNCHANGED <<app, lp, lc, g1, g2, rc, sub, cur, act, up, cont>>
     ELSE /\ g2' = <<p, c>> /\ g1' = [g1 EXCEPT ![0] = <<0, 0>>] /\ cur' = [cur EXCEPT ![0] = Succ(@)]
          /\ sub' = [sub EXCEPT ![0] = Succ(@)] /\ rc' = [rc EXCEPT ![0] = 0]
          /\ cont' = cont \cup {[to |-> n, w |-> Succ(cur[0])] : n \in Nodes \ {0}}
          /\ UNCHANGED <<app, lp, lc, act, up, term, told>>
Continue(m) ==
  /\ m \in cont /\ cont' = cont \ {m} /\ cur' = [cur EXCEPT ![m.to] = m.w]
  /\ UNCHANGED <<app, lp, lc, g1, g2, rc, sub, act, up, term, told>>
Tell(n) == term /\ n \notin told /\ told' = told \cup {n} /\ UNCHANGED <<app, lp, lc, g1, g2, rc, sub, cur, act, up, cont, term>>
TD == (\E n \in Nodes : Submit(n) \/ Tell(n)) \/ (\E m \in up : FromChild(m)) \/ RootDecide \/ (\E m \in cont : Continue(m))
App == (\E n, d \in Nodes : Send(n, d))
Next == App \/ (\E m \in net : Arrive(m)) \/ (\E h \in run : Finish(h)) \/ (\E n \in Nodes : FinishedEpoch(n)) \/ TD
Spec == Init /\ [][Next]_vars /\ WF_vars(TD) /\ WF_vars(\E m \in net : Arrive(m)) /\ WF_vars(\E h \in run : Finish(h))
        /\ \A n \in Nodes : WF_vars(FinishedEpoch(n))
\* T01: nothing is outstanding once termination has been detected
Safe == term => open = {} /\ net = {} /\ run = {}
\* T02: and it is detected, on every node
Live == <>(told = Nodes)
\* each node adds exactly one report per wave
OneReport == \A n \in Nodes : rc[n] <= Cardinality(Kids(n)) /\ (sub[n] = cur[n] \/ cur[n] = Succ(sub[n]))
=============================================================================
