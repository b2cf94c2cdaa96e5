---------------------------- MODULE MCActiveMsg ----------------------------
(* Design model: how a broadcast is carried out.  The root sends to its      *)
(* children in a binary spanning tree rooted at node 0; a node forwards to   *)
(* its children and delivers locally.  A broadcast by a node other than 0    *)
(* goes to node 0 first.  The network reorders messages arbitrarily.         *)
(* Checked: every behaviour of this forwarding scheme is a behaviour of      *)
(* ActiveMsg (refinement), i.e. exactly one delivery per node.               *)
EXTENDS ActiveMsg, TLC
CONSTANTS NN, Ids
Node == 0 .. NN - 1
Kids(n) == {k \in {2 * n + 1, 2 * n + 2} : k < NN}
VARIABLES net,    \* packets [id, to, h, b, up, src]
          todo    \* ids not yet issued
vars == <<mvars, net, todo>>
H(id) == id + 100
Init == MInit /\ net = {} /\ todo = Ids
IssueSend(id, s, d) ==
  /\ id \in todo /\ todo' = todo \ {id}
  /\ Send(id, s, d, H(id))
  /\ net' = net \cup {[id |-> id, to |-> d, src |-> s, h |-> H(id), kind |-> "p2p", self |-> TRUE]}
IssueBcast(id, s, self) ==
  /\ id \in todo /\ todo' = todo \ {id}
  /\ Bcast(id, s, Node, self, H(id))
  /\ net' = net \cup {[id |-> id, to |-> 0, src |-> s, h |-> H(id), kind |-> "down", self |-> self]}
RecvP2P(p) ==
  /\ p \in net /\ p.kind = "p2p"
  /\ Deliver(p.id, p.to, p.h, p.src)
  /\ net' = net \ {p} /\ UNCHANGED todo
RecvDown(p) ==
  /\ p \in net /\ p.kind = "down"
  /\ net' = (net \ {p}) \cup {[p EXCEPT !.to = k] : k \in Kids(p.to)}
  /\ IF p.to # p.src \/ p.self
       THEN Deliver(p.id, p.to, p.h, p.src)
       ELSE UNCHANGED mvars
  /\ UNCHANGED todo
Next ==
  \/ \E id \in todo, s \in Node : (\E d \in Node : IssueSend(id, s, d)) \/ (\E b \in BOOLEAN : IssueBcast(id, s, b))
  \/ \E p \in net : RecvP2P(p) \/ RecvDown(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E p \in net : RecvP2P(p) \/ RecvDown(p))
\* nothing is lost: when the network is empty no delivery is owed
Complete == net = {} => Quiet
\* a packet can always be consumed (the Deliver inside is never blocked)
NoStuck == \A p \in net : ENABLED (RecvP2P(p) \/ RecvDown(p))
AllDelivered == <>[](net = {})
EveryBcastEverywhere == net = {} =>
  \A id \in used : Cardinality({m \in done : m.id = id}) \in {1, NN - 1, NN}
=============================================================================
