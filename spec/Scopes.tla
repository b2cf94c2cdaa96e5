------------------------------- MODULE Scopes -------------------------------
(* Collective actions: every node runs every planned action once, and all     *)
(* nodes run them in one common order, so that blocking MPI calls inside      *)
(* them always meet.                                                           *)
(* plan[a]  node -> [v, what] for the nodes that have planned action a         *)
(* order    the agreed order so far; done[r] how many of it node r has run     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES plan, order, done
svars == <<plan, order, done>>
SInit == plan = <<>> /\ order = <<>> /\ done = <<>>
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x].v + Total(f, S \ {x})
Ran(r) == {order[i] : i \in 1 .. At(done, r, 0)}
Plan(a, r, v, what) ==
  /\ r \notin DOMAIN At(plan, a, <<>>)
  /\ plan' = With(plan, a, With(At(plan, a, <<>>), r, [v |-> v, what |-> what]))
  /\ UNCHANGED <<order, done>>
\* what the MPI call inside the action yields (0: barrier, 1: sum, 2: broadcast from 0)
Outcome(a, nodes) == LET f == plan[a] IN CASE f[0].what = 0 -> -1 [] f[0].what = 1 -> Total(f, nodes) [] OTHER -> f[0].v
Run(a, r, y, nodes) ==
  LET n == At(done, r, 0) + 1 IN
  /\ a \in DOMAIN plan /\ DOMAIN plan[a] = nodes
  /\ IF n <= Len(order) THEN order[n] = a /\ UNCHANGED order
                        ELSE (\A i \in 1 .. Len(order) : order[i] # a) /\ order' = Append(order, a)
  /\ y = Outcome(a, nodes)
  /\ done' = With(done, r, n)
  /\ UNCHANGED plan
\* whether an action is reported done on r
Query(a, r, yes) == (yes <=> a \in Ran(r)) /\ UNCHANGED svars
Over(rd, nodes) == \A a \in DOMAIN plan : a \div 100 <= rd => \A r \in nodes : a \in Ran(r)
=============================================================================
