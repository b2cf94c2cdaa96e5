------------------------------ MODULE Barriers ------------------------------
(* Nobody passes a barrier before everybody has reached it; everybody passes  *)
(* it once.                                                                    *)
EXTENDS Integers, FiniteSets
VARIABLES in, out      \* barrier -> nodes that reached it, that passed it
bvars == <<in, out>>
BInit == in = <<>> /\ out = <<>>
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Reach(b, r) == r \notin At(in, b, {}) /\ in' = With(in, b, At(in, b, {}) \cup {r}) /\ UNCHANGED out
Pass(b, r, nodes) == in[b] = nodes /\ r \notin At(out, b, {}) /\ out' = With(out, b, At(out, b, {}) \cup {r}) /\ UNCHANGED in
Over(rd, nodes) == \A b \in DOMAIN in : b \div 100 <= rd => in[b] = nodes /\ At(out, b, {}) = nodes
=============================================================================
