-------------------------- MODULE ElementLoadTrace --------------------------
EXTENDS TraceBase, ElementLoad
vars == <<lvars, t, l>>
Init == TBInit /\ LInit
\* the same edge may be reported by its sender and by its receiver
Key(k) == CASE k[1] = 0 -> <<1, k[2], k[3], 0>> [] k[1] = 6 -> <<2, k[2], k[3], 0>> [] OTHER -> k
TStart == Is("start") /\ Start
TStop == Is("stop") /\ Stop(Ev.ms)
TStray == Is("stray") /\ ~running /\ UNCHANGED lvars
TSetTime == Is("settime") /\ SetTime(Ev.ms, Ev.sub)
TComm == Is("comm") /\ Comm(Key(Ev.key), Ev.b)
TSub == Is("sub") /\ Subphase(Ev.s)
TCur == Is("cur") /\ Ev.p = ph /\ Ev.s = sph /\ UNCHANGED lvars
TNext == Is("next") /\ NextPhase(Ev.by)
TRel == Is("rel") /\ IF Ev.p >= Ev.lb THEN Release(Ev.p - Ev.lb) ELSE UNCHANGED lvars
At(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
TPhase == Is("phase") /\ UNCHANGED lvars
  /\ LET r == Rec(Ev.p) IN
     /\ Ev.load = r.total /\ Ev.all = r.total
     /\ \A i \in 1 .. (IF Len(Ev.sub) > Len(r.sub) THEN Len(Ev.sub) ELSE Len(r.sub)) : At(Ev.sub, i) = At(r.sub, i)
     /\ Ev.one = Ev.sub
     /\ Ev.bytes = SumB(r.comm) /\ Ev.msgs = SumM(r.comm) /\ Ev.keys = Cardinality({x.k : x \in r.comm})
     /\ \A s \in 0 .. 5 : At(Ev.sb, s + 1) = SumB({x \in r.comm : x.s = s})
     /\ Len(Ev.sb) <= 6
TEnd == Is("end") /\ UNCHANGED lvars
Next == TStart \/ TStop \/ TStray \/ TSetTime \/ TComm \/ TSub \/ TCur \/ TNext \/ TRel \/ TPhase \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
