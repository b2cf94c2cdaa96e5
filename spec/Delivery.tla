------------------------------ MODULE Delivery ------------------------------
(* Who must get what: sends to nodes, groups and object groups, callbacks and *)
(* scatter.                                                                    *)
(* mem[g]   the members of group g (rooted: announced by its creator;          *)
(*          collective: the nodes that said they are in)                        *)
(* said[g]  the nodes that have said whether they are in g (collective only)    *)
(* live[g]  nodes whose creation action has run                                 *)
(* obj      <<object group, node>> -> [tag, cnt]: the instance there            *)
(* owe      deliveries outstanding: [m, k, o, to, sum, rd]                      *)
(*          m: message, k: callback (0: none), o: receiver (0: a function)      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES mem, said, live, obj, owe
dvars == <<mem, said, live, obj, owe>>
DInit == mem = <<>> /\ said = <<>> /\ live = <<>> /\ obj = <<>> /\ owe = {}
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Owe(m, k, o, to, sum, rd) ==
  /\ owe' = owe \cup {[m |-> m, k |-> k, o |-> o, to |-> n, sum |-> sum, rd |-> rd] : n \in to}
  /\ UNCHANGED <<mem, said, live, obj>>
\* one delivery of one message; a callback without arguments does not say which
Got(m, k, o, r, sum) ==
  /\ \E q \in owe : /\ q.k = k /\ q.o = o /\ q.to = r
                    /\ IF m = -1 THEN q = CHOOSE x \in owe : x.k = k /\ x.o = o /\ x.to = r
                                 ELSE q.m = m /\ q.sum = sum
                    /\ owe' = owe \ {q}
  /\ UNCHANGED <<mem, said, live, obj>>
\* a rooted group has the members its creator named
MakeGroup(g, S) == g \notin DOMAIN mem /\ mem' = With(mem, g, S) /\ UNCHANGED <<said, live, obj, owe>>
\* a collective group has the members that joined
Join(g, r, in) ==
  /\ r \notin At(said, g, {})
  /\ said' = With(said, g, At(said, g, {}) \cup {r})
  /\ mem' = With(mem, g, At(mem, g, {}) \cup (IF in THEN {r} ELSE {}))
  /\ UNCHANGED <<live, obj, owe>>
\* the creation action runs once per node, when the group is complete
Ready(g, r, nodes) ==
  /\ g \in DOMAIN mem
  /\ g \in DOMAIN said => said[g] = nodes
  /\ r \notin At(live, g, {})
  /\ live' = With(live, g, At(live, g, {}) \cup {r})
  /\ UNCHANGED <<mem, said, obj, owe>>
GroupOwe(m, g, o, sum, rd) == g \in DOMAIN live /\ Owe(m, 0, o, mem[g], sum, rd)
IsIn(g, r, in) == (in <=> r \in mem[g]) /\ UNCHANGED dvars
\* object groups: one instance per node, messages go to the current one
MakeObj(o, r, tag) == <<o, r>> \notin DOMAIN obj /\ obj' = With(obj, <<o, r>>, [tag |-> tag, cnt |-> 0]) /\ UNCHANGED <<mem, said, live, owe>>
NewObj(o, r, tag) == <<o, r>> \in DOMAIN obj /\ obj' = With(obj, <<o, r>>, [tag |-> tag, cnt |-> 0]) /\ UNCHANGED <<mem, said, live, owe>>
CutObj(o, r) ==
  /\ <<o, r>> \in DOMAIN obj /\ \A q \in owe : ~(q.o = o /\ q.to = r)
  /\ obj' = [x \in DOMAIN obj \ {<<o, r>>} |-> obj[x]] /\ UNCHANGED <<mem, said, live, owe>>
ObjGot(m, o, r, sum, tag, cnt) ==
  /\ obj[<<o, r>>] = [tag |-> tag, cnt |-> cnt]
  /\ \E q \in owe : q.m = m /\ q.k = 0 /\ q.o = o /\ q.to = r /\ q.sum = sum /\ owe' = owe \ {q}
  /\ obj' = With(obj, <<o, r>>, [tag |-> tag, cnt |-> cnt + 1])
  /\ UNCHANGED <<mem, said, live>>
See(o, r, tag) == obj[<<o, r>>].tag = tag /\ UNCHANGED dvars
\* what round rd asked for has happened
Over(rd, nodes) ==
  /\ \A q \in owe : q.rd > rd
  /\ \A g \in DOMAIN mem : g <= rd => IF g \in DOMAIN said THEN live[g] = nodes ELSE g \in DOMAIN live /\ Cardinality(live[g]) = 1
=============================================================================
