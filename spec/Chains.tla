------------------------------- MODULE Chains -------------------------------
(* Chains of dependent steps.  A step of a chain begins when everything that  *)
(* the previous step on that chain caused is over; a collective step counts   *)
(* as one with the steps added together with it on all nodes; a merged step   *)
(* follows the last steps of both chains and both go on after it.             *)
(* elems     the elements each chain set follows                               *)
(* last[c]   the group of steps added last to chain c                          *)
(* step[s]   [g, i, pre, st]: group, element, groups that must be over before, *)
(*           and "wait" | "run" | "over"                                       *)
(* grp[g]    [coll, shut, left]: collective?, the nodes that have declared it  *)
(*           complete, work of it under way or to come                         *)
(* msg       work under way: [m, g]                                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES elems, last, step, grp, msg
cvars == <<elems, last, step, grp, msg>>
CInit == elems = {} /\ last = <<>> /\ step = <<>> /\ grp = <<>> /\ msg = {}
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
None == [shut |-> {}, left |-> 0]
Finished(g, coll, nodes) == At(grp, g, None).left = 0 /\ (coll => At(grp, g, None).shut = nodes)
IsColl(g) == g % 1000 = 999 /\ g < 1000000
Over(g, nodes) == Finished(g, IsColl(g), nodes)
\* chains of one element in the sets `in`, or of one node
Chains(in, i) == {<<in[k], i>> : k \in 1 .. Len(in)}
Add(s, g, i, in) ==
  /\ s \notin DOMAIN step
  /\ i >= 0 => i \in elems
  /\ step' = With(step, s, [g |-> g, i |-> i, st |-> "wait", pre |-> {last[c] : c \in Chains(in, i) \cap DOMAIN last}])
  /\ last' = [c \in DOMAIN last \cup Chains(in, i) |-> IF c \in Chains(in, i) THEN g ELSE last[c]]
  /\ grp' = With(grp, g, [At(grp, g, None) EXCEPT !.left = @ + 1])
  /\ UNCHANGED <<elems, msg>>
Shut(g, r) == grp' = With(grp, g, [At(grp, g, None) EXCEPT !.shut = @ \cup {r}]) /\ UNCHANGED <<elems, last, step, msg>>
Begin(s, i, nodes) ==
  /\ s \in DOMAIN step /\ step[s].st = "wait" /\ step[s].i = i
  /\ (\A g \in step[s].pre : Over(g, nodes)) = TRUE
  /\ step' = [step EXCEPT ![s].st = "run"] /\ UNCHANGED <<elems, last, grp, msg>>
End(s) == step[s].st = "run" /\ step' = [step EXCEPT ![s].st = "over"] /\ grp' = [grp EXCEPT ![step[s].g].left = @ - 1] /\ UNCHANGED <<elems, last, msg>>
Send(m, s) == msg' = msg \cup {[m |-> m, g |-> step[s].g, st |-> "sent"]} /\ grp' = [grp EXCEPT ![step[s].g].left = @ + 1] /\ UNCHANGED <<elems, last, step>>
Recv(m) == \E x \in msg : x.m = m /\ x.st = "sent" /\ msg' = (msg \ {x}) \cup {[x EXCEPT !.st = "run"]} /\ UNCHANGED <<elems, last, step, grp>>
Done(m) == \E x \in msg : x.m = m /\ x.st = "run" /\ msg' = msg \ {x} /\ grp' = [grp EXCEPT ![x.g].left = @ - 1] /\ UNCHANGED <<elems, last, step>>
\* every step of the rounds so far has run and all it caused is over
Quiet(rd) == \A s \in DOMAIN step : (s % 1000000) \div 1000 <= rd => step[s].st = "over" /\ grp[step[s].g].left = 0
Reset == last' = <<>> /\ UNCHANGED <<elems, step, grp, msg>>
Elems(v) == elems' = v /\ UNCHANGED <<last, step, grp, msg>>
=============================================================================
