--------------------------- MODULE BarriersTrace ---------------------------
EXTENDS TraceBase, Barriers
vars == <<bvars, t, l>>
Init == TBInit /\ BInit
TIn == Is("bin") /\ Reach(Ev.b, Ev.r)
TOut == Is("bout") /\ Pass(Ev.b, Ev.r, Nodes)
TRend == Is("rend") /\ (Over(Ev.rd, Nodes) = TRUE) /\ UNCHANGED bvars
TSkip == (Is("fini") \/ Is("end")) /\ UNCHANGED bvars
Next == TIn \/ TOut \/ TRend \/ TSkip
Spec == Init /\ [][Next]_vars
=============================================================================
