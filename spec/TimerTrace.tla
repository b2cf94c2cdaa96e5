----------------------------- MODULE TimerTrace -----------------------------
EXTENDS TraceBase, Timer
vars == <<timevars, t, l>>
Init == TBInit /\ TmInit
TAdd == Is("add") /\ Add(Ev.t, Ev.per, Ev.now, Ev.im)
TAdded == Is("added") /\ Ev.need /\ Added(Ev.t, Ev.id)
TFire == Is("fire") /\ Fire(Ev.t)
TRem == Is("rem") /\ Remove(Ev.t)
TRemId == Is("remid") /\ Remove(IF \E x \in DOMAIN trig : trig[x].id = Ev.id THEN CHOOSE x \in DOMAIN trig : trig[x].id = Ev.id ELSE -1)
TProg == Is("prog") /\ Start(Ev.now)
TIdle == Is("idle") /\ Stop
TEnd == Is("end") /\ UNCHANGED timevars
Next == TAdd \/ TAdded \/ TFire \/ TRem \/ TRemId \/ TProg \/ TIdle \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
