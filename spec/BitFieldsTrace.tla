--------------------------- MODULE BitFieldsTrace ---------------------------
EXTENDS TraceBase, BitFields
vars == <<val, t, l>>
Init == TBInit /\ BInit
TSet == Is("set") /\ Store(Ev.o, Ev.k, Ev.v)
TAll == Is("all") /\ (\A i \in 1 .. Len(Ev.f) : Reads(Ev.o, Ev.f[i][1], Ev.f[i][2])) /\ UNCHANGED val
TEnd == Is("end") /\ UNCHANGED val
Next == TSet \/ TAll \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
