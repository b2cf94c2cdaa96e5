------------------------------- MODULE Timer -------------------------------
(* Periodic triggers: trig[t] = [per, last, id]; a trigger is due when more   *)
(* than its period has passed since it last fired.                            *)
EXTENDS Integers, FiniteSets
VARIABLES trig, now, todo        \* todo: triggers the progress call under way may or must fire
timevars == <<trig, now, todo>>
Idle == [may |-> {}, must |-> {}, on |-> FALSE]
TmInit == trig = [x \in {} |-> 0] /\ now = 0 /\ todo = Idle
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Add(i, per, at, fire) == ~todo.on /\ trig' = Upd(trig, i, [per |-> per, last |-> at, id |-> -1]) /\ todo' = [todo EXCEPT !.must = IF fire THEN {i} ELSE {}] /\ UNCHANGED now
Added(i, id) == ~todo.on /\ todo.must = {} /\ (\A x \in DOMAIN trig : trig[x].id # id) /\ trig' = [trig EXCEPT ![i].id = id] /\ UNCHANGED <<now, todo>>
Due(x) == trig[x].last + trig[x].per
Start(at) ==
  /\ ~todo.on /\ now' = at /\ UNCHANGED trig
  /\ todo' = [on |-> TRUE, must |-> {x \in DOMAIN trig : Due(x) < at}, may |-> {x \in DOMAIN trig : Due(x) = at}]
\* fires once, and no trigger that was due earlier is still waiting
Fire(i) ==
  /\ i \in DOMAIN trig /\ i \in todo.must \cup todo.may
  /\ todo.on => \A x \in todo.must \cap DOMAIN trig : Due(i) <= Due(x)
  /\ todo' = [todo EXCEPT !.must = @ \ {i}, !.may = @ \ {i}]
  /\ trig' = IF todo.on THEN [trig EXCEPT ![i].last = now] ELSE trig
  /\ UNCHANGED now
Remove(i) == trig' = [x \in DOMAIN trig \ {i} |-> trig[x]] /\ todo' = [todo EXCEPT !.must = @ \ {i}, !.may = @ \ {i}] /\ UNCHANGED now
Stop == todo.on /\ todo.must = {} /\ todo' = Idle /\ UNCHANGED <<trig, now>>
=============================================================================
