-------------------------- MODULE ReductionsTrace --------------------------
EXTENDS TraceBase, Reductions
vars == <<rvars, t, l>>
Init == TBInit /\ RInit
TCon == Is("con") /\ Contribute(Ev.k, Ev.r, [op |-> Ev.op, all |-> Ev.all, tgt |-> IF Ev.all THEN 0 ELSE Ev.tgt, rd |-> Ev.rd, g |-> IF "g" \in DOMAIN Ev THEN Ev.g ELSE -1], Ev.v)
TRes == Is("res") /\ Result(Ev.k, Ev.r, Ev.v, Nodes)
TGin == Is("gin") /\ Join(Ev.g, Ev.r, Ev.in)
TRend == Is("rend") /\ (Over(Ev.rd, Nodes) = TRUE) /\ UNCHANGED rvars
TSkip == (Is("ready") \/ Is("isin") \/ Is("fini")) /\ UNCHANGED rvars
TEnd == Is("end") /\ UNCHANGED rvars
Next == TCon \/ TRes \/ TGin \/ TRend \/ TSkip \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
