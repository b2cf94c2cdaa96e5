-------------------------- MODULE EpochWindowTrace --------------------------
EXTENDS TraceBase, EpochWindow
vars == <<evars, t, l>>
E == [ep |-> Ev.ep, rooted |-> Ev.rooted, cat |-> Ev.cat, node |-> Ev.node, seq |-> Ev.seq]
Init == TBInit /\ EInit
TNew == Is("new") /\ Alloc(E) /\ Counted(Win(E), Ev.tt, 0)
  /\ E.rooted = (Ev.wnode >= 0) /\ E.cat = Ev.wcat /\ E.node = Ev.wnode
TTerm == Is("term") /\ Terminate(E) /\ Counted(Win(E), Ev.tt, 1)
TAct == Is("activate") /\ Activate(E)
TIsTerm == Is("isterm") /\ Ev.yes = (E \notin active) /\ UNCHANGED evars
TEnd == Is("end") /\ UNCHANGED evars
Next == TNew \/ TTerm \/ TAct \/ TIsTerm \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
