----------------------------- MODULE MCMembership -----------------------------
(* Inserting and destroying one index of a collection with dynamic membership. *)
(* An insertion away from the home first reserves the index in the home's      *)
(* directory, which decides races; a destruction must take the record back.    *)
(* Operations are grouped in modifications: one ends when no message is left.  *)
(* TellHome = FALSE is the design that left the record of an object destroyed  *)
(* away from its home: Wanted fails.                                           *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Ops, TellHome
Nodes == 0 .. N - 1
Home == 0
None == -1
VARIABLES has, dir, net, ops, mode, asked
vars == <<has, dir, net, ops, mode, asked>>
\* mode: what this modification does: "" none yet, "ins", "del"
Init == has \in {[n \in Nodes |-> 0]} \cup {[n \in Nodes |-> IF n = k THEN 1 ELSE 0] : k \in Nodes} /\ dir = (IF \E n \in Nodes : has[n] = 1 THEN CHOOSE n \in Nodes : has[n] = 1 ELSE None)
        /\ net = {} /\ ops = 0 /\ mode = "" /\ asked = {}
Msg(k, at, x) == [kind |-> k, at |-> at, x |-> x, n |-> ops]
\* an insertion at node x is handled by node n
Do(n, x, pinged, base) ==
  IF n # x THEN net' = base \cup {Msg("insert", x, x)} /\ UNCHANGED <<has, dir>>
  ELSE IF pinged THEN has' = [has EXCEPT ![n] = @ + 1] /\ net' = base /\ UNCHANGED dir
  ELSE IF n = Home
    THEN IF has[n] > 0 \/ dir # None THEN net' = base /\ UNCHANGED <<has, dir>> ELSE has' = [has EXCEPT ![n] = 1] /\ dir' = n /\ net' = base
    ELSE net' = base \cup {Msg("ping", Home, x)} /\ UNCHANGED <<has, dir>>
Start == ops < Ops /\ ops' = ops + 1
Insert(n, x) == Start /\ mode \in {"", "ins"} /\ mode' = "ins" /\ asked' = asked \cup {x} /\ Do(n, x, FALSE, net)
Exists == \E n \in Nodes : has[n] > 0
Destroy(n) ==
  /\ Start /\ mode = "" /\ Exists /\ mode' = "del" /\ UNCHANGED asked
  /\ IF has[n] > 0 THEN has' = [has EXCEPT ![n] = 0] /\ dir' = (IF n = Home THEN None ELSE dir) /\ net' = net \cup (IF TellHome /\ n # Home THEN {Msg("gone", Home, n)} ELSE {})
     ELSE net' = net \cup {Msg("destroy", CHOOSE k \in Nodes : has[k] > 0, n)} /\ UNCHANGED <<has, dir>>
Recv(m) ==
  /\ m \in net /\ UNCHANGED <<ops, mode, asked>>
  /\ LET n == m.at  rest == net \ {m} IN
     CASE m.kind = "insert" -> Do(n, m.x, FALSE, rest)
       [] m.kind = "insert2" -> Do(n, m.x, TRUE, rest)
       [] m.kind = "ping" -> IF dir # None THEN net' = rest /\ UNCHANGED <<has, dir>> ELSE dir' = m.x /\ net' = rest \cup {[m EXCEPT !.kind = "insert2", !.at = m.x]} /\ UNCHANGED has
       [] m.kind = "destroy" -> has' = [has EXCEPT ![n] = 0] /\ dir' = (IF n = Home THEN None ELSE dir) /\ net' = rest \cup (IF TellHome /\ n # Home THEN {[m EXCEPT !.kind = "gone", !.at = Home]} ELSE {})
       [] m.kind = "gone" -> dir' = None /\ net' = rest /\ UNCHANGED has
\* the modification is over: what was asked for has happened
Finish == mode # "" /\ net = {} /\ mode' = "" /\ asked' = {} /\ UNCHANGED <<has, dir, net, ops>>
Next == Finish \/ (\E m \in net : Recv(m)) \/ (\E n, x \in Nodes : Insert(n, x)) \/ (\E n \in Nodes : Destroy(n))
Spec == Init /\ [][Next]_vars
AtMostOne == \A n, k \in Nodes : has[n] <= 1 /\ (has[n] + has[k] <= 1 \/ n = k)
Wanted == (net = {} /\ mode = "ins") => Exists
Removed == (net = {} /\ mode = "del") => ~Exists
HomeKnows == net = {} => (IF Exists THEN has[dir] = 1 ELSE TellHome => dir = None)
=============================================================================
