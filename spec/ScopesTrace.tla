---------------------------- MODULE ScopesTrace ----------------------------
EXTENDS TraceBase, Scopes
vars == <<svars, t, l>>
Init == TBInit /\ SInit
TPlan == Is("plan") /\ Plan(Ev.a, Ev.r, Ev.v, Ev.what)
TAct == Is("act") /\ Run(Ev.a, Ev.r, Ev.y, Nodes)
TAsk == Is("ask") /\ Query(Ev.a, Ev.r, Ev.yes)
TDone == Is("done") /\ Query(Ev.a, Ev.r, TRUE)
\* a scope is gone once it is destroyed and its actions have run
TFreed == Is("freed") /\ Ev.yes /\ UNCHANGED svars
TRend == Is("rend") /\ (Over(Ev.rd, Nodes) = TRUE) /\ UNCHANGED svars
TSkip == (Is("fini") \/ Is("end")) /\ UNCHANGED svars
Next == TPlan \/ TAct \/ TAsk \/ TDone \/ TFreed \/ TRend \/ TSkip
Spec == Init /\ [][Next]_vars
=============================================================================
