---------------------------- MODULE ThreadsTrace ----------------------------
EXTENDS TraceBase, Threads
vars == <<thvars, t, l>>
Init == TBInit /\ ThInit
TSpawn == Is("spawn") /\ Spawn(Ev.t, Ev.steps, Ev.run)
TCtl == Is("ctl") /\ Begin(Ev.t)
TStep == Is("step") /\ Ev.act /\ Ev.loc /\ Step(Ev.t, Ev.i, Ev.tid)
TSusp == Is("susp") /\ Suspend(Ev.t)
TBack == Is("back") /\ Back(Ev.t, Ev.tid)
TFin == Is("fin") /\ Ev.loc /\ Finish(Ev.t)
TRet == Is("ret") /\ Ret(Ev.t, Ev.id, Ev.done, Ev.act)
TLook == Is("look") /\ Ev.found = (th[Ev.t].st # "dead") /\ UNCHANGED thvars
TFree == Is("free") /\ Free(Ev.t)
TResume == Is("resume") /\ Resume(Ev.t)
\* a resume loop that runs a thread to its end comes back into it by itself
TAgain == /\ l <= Len(Tr) /\ Ev.e = "back" /\ th[Ev.t].st = "susp" /\ Silent /\ Resume(Ev.t)
TEnd == Is("end") /\ stack = <<>> /\ UNCHANGED thvars
Next == TSpawn \/ TCtl \/ TStep \/ TSusp \/ TBack \/ TFin \/ TRet \/ TLook \/ TFree \/ TResume \/ TAgain \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
