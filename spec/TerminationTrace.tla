-------------------------- MODULE TerminationTrace --------------------------
EXTENDS TraceBase, Termination
VARIABLE glob        \* nodes on which the global termination action has run
vars == <<tvars, glob, t, l>>
Set(s) == {s[i] : i \in 1 .. Len(s)}
Init == TBInit /\ TInit /\ glob = {}
TNew == Is("new") /\ NewEpoch(Ev.ep, Set(Ev.par), IF Ev.kind = "c" THEN Nodes ELSE {Ev.r})
TFin == Is("fin") /\ Finish(Ev.ep, Ev.r)
TDep == Is("dep") /\ AddParent(Ev.ep, Ev.par)
TSend == Is("send") /\ AddWork(Ev.m, Ev.n, Ev.ep)
TRecv == Is("recv") /\ HasWork(Ev.m, Ev.cur) /\ UNCHANGED tvars     \* handler runs in the sender's epoch
TDone == Is("done") /\ WorkDone(Ev.m)
TAct == Is("act") /\ AddAction(Ev.a, Ev.ep, Ev.r, Ev.enc)
TRun == Is("run") /\ RunAction(Ev.a, Ev.r)
TPoll == Is("poll") /\ Poll(Ev.ep, Ev.yes)
TWaited == Is("waited") /\ Poll(Ev.ep, TRUE)
TGlob == Is("glob") /\ Ev.r \notin glob /\ glob' = glob \cup {Ev.r} /\ AllDone /\ UNCHANGED tvars
TEnd == Is("end") /\ AllDone /\ glob = Nodes /\ UNCHANGED <<tvars, glob>>
Next == ((TNew \/ TFin \/ TDep \/ TSend \/ TRecv \/ TDone \/ TAct \/ TRun \/ TPoll \/ TWaited) /\ UNCHANGED glob) \/ TGlob \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
