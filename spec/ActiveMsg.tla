----------------------------- MODULE ActiveMsg -----------------------------
(* Point-to-point active messages and broadcasts.                            *)
(* A message is a record [id, src, dst, h]; h stands for its contents (the   *)
(* digest and size of the payload in the conformance check).                 *)
(* flight: deliveries still owed.  done: deliveries that happened.           *)
EXTENDS Integers, FiniteSets
VARIABLES flight, done, used
mvars == <<flight, done, used>>

MInit == flight = {} /\ done = {} /\ used = {}

Send(id, s, d, h) ==
  /\ id \notin used
  /\ used' = used \cup {id}
  /\ flight' = flight \cup {[id |-> id, src |-> s, dst |-> d, h |-> h, b |-> FALSE]}
  /\ UNCHANGED done

\* one delivery is owed to every node (self: whether the sender is included)
Bcast(id, s, ns, self, h) ==
  /\ id \notin used
  /\ used' = used \cup {id}
  /\ flight' = flight \cup
       {[id |-> id, src |-> s, dst |-> d, h |-> h, b |-> TRUE] :
          d \in IF self THEN ns ELSE ns \ {s}}
  /\ UNCHANGED done

\* the handler runs: once per owed delivery, on the right node, with the
\* contents that were sent; f is the node the handler sees as origin
Deliver(id, d, h, f) ==
  \E m \in flight :
    /\ m.id = id /\ m.dst = d /\ m.h = h
    /\ ~m.b => f = m.src
    /\ flight' = flight \ {m}
    /\ done' = done \cup {m}
    /\ UNCHANGED used

ExactlyOnce == flight \cap done = {}
OnlySent == \A m \in done : m.id \in used
Quiet == flight = {}
=============================================================================
