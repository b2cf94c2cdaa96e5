---------------------------- MODULE Termination ----------------------------
(* What termination detection owes its user, for any number of epochs.       *)
(* work[e]   work units (messages sent and not yet completely handled, and    *)
(*           actions registered while e was current) charged to epoch e       *)
(* par[e]    the epochs that must outlast e                                   *)
(* need[e]   the nodes that must call finishedEpoch before e may terminate    *)
(* fin       (epoch, node) pairs that have called it                          *)
(* done      epochs whose termination somebody has observed                   *)
(* acts      registered actions that have not run: [id, ep, on]               *)
EXTENDS Integers, FiniteSets
VARIABLES work, par, need, fin, done, acts
tvars == <<work, par, need, fin, done, acts>>

TInit == work = {} /\ par = [e \in {} |-> {}] /\ need = [e \in {} |-> {}] /\ fin = {} /\ done = {} /\ acts = {}

Known(e) == e \in DOMAIN par
NewEpoch(e, ps, nd) ==
  /\ e \notin done /\ ps \cap done = {}
  /\ par' = [x \in DOMAIN par \cup {e} |-> IF x = e THEN (IF Known(e) THEN par[e] \cup ps ELSE ps) ELSE par[x]]
  /\ need' = [x \in DOMAIN need \cup {e} |-> IF x = e THEN nd ELSE need[x]]
  /\ UNCHANGED <<work, fin, done, acts>>
AddParent(e, p) ==
  /\ Known(e) /\ Known(p) /\ e \notin done /\ p \notin done
  /\ par' = [par EXCEPT ![e] = @ \cup {p}]
  /\ UNCHANGED <<work, need, fin, done, acts>>
Finish(e, n) == fin' = fin \cup {<<e, n>>} /\ UNCHANGED <<work, par, need, done, acts>>

\* a unit of work u = [id, n, ep] with n deliveries still to complete
AddWork(id, n, e) ==
  /\ e \notin done
  /\ \A u \in work : u.id # id
  /\ work' = work \cup {[id |-> id, n |-> n, ep |-> e]}
  /\ UNCHANGED <<par, need, fin, done, acts>>
HasWork(id, e) == \E u \in work : u.id = id /\ u.ep = e /\ u.n > 0
WorkDone(id) ==
  \E u \in work : u.id = id /\ u.n > 0
    /\ work' = (work \ {u}) \cup (IF u.n = 1 THEN {} ELSE {[u EXCEPT !.n = @ - 1]})
    /\ UNCHANGED <<par, need, fin, done, acts>>

\* e may terminate: nothing outstanding in it, every participant has finished
\* it, and every epoch nested in it may terminate too
RECURSIVE Quiet(_)
Quiet(e) ==
  \/ e \in done
  \/ /\ \A u \in work : u.ep # e
     /\ \A n \in need[e] : <<e, n>> \in fin
     /\ \A c \in DOMAIN par : e \in par[c] => Quiet(c)

RECURSIVE Below(_)
Below(e) == {e} \cup UNION {Below(c) : c \in {x \in DOMAIN par : e \in par[x]}}
Observe(e) == Known(e) /\ (Quiet(e) = TRUE) /\ done' = done \cup Below(e)

\* an action registered while enc was current is also a unit of work of enc
AddAction(a, e, on, enc) ==
  /\ \A x \in acts : x.id # a
  /\ enc # "" => enc \notin done
  /\ acts' = acts \cup {[id |-> a, ep |-> e, on |-> on]}
  /\ work' = IF enc = "" THEN work ELSE work \cup {[id |-> a, n |-> 1, ep |-> enc]}
  /\ UNCHANGED <<par, need, fin, done>>
RunAction(a, on) ==
  \E x \in acts :
    /\ x.id = a /\ x.on = on
    /\ Observe(x.ep)
    /\ acts' = acts \ {x}
    /\ work' = {u \in work : u.id # a}
    /\ UNCHANGED <<par, need, fin>>
Poll(e, yes) ==
  /\ IF yes THEN Observe(e) ELSE UNCHANGED done
  /\ UNCHANGED <<work, par, need, fin, acts>>
AllDone == work = {} /\ acts = {}
=============================================================================
