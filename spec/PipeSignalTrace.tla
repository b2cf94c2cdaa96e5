--------------------------- MODULE PipeSignalTrace ---------------------------
EXTENDS TraceBase, PipeSignal
VARIABLES cleared, over       \* pipes cleared since; the holder is gone
vars == <<pvars, cleared, over, t, l>>
Init == TBInit /\ SInit /\ cleared = {} /\ over = FALSE
U == UNCHANGED <<cleared, over>>
TListen == Is("listen") /\ Listen(Ev.l, Ev.p, Ev.pers, Ev.n) /\ U
TExists == Is("exists") /\ (Of(Ev.p) # {} => Ev.yes) /\ (Ev.yes => (Of(Ev.p) # {} \/ Ev.p \in cleared)) /\ UNCHANGED pvars /\ U
TSig == Is("sig") /\ Signal(Ev.p, Ev.d) /\ U
TTrig == Is("trig") /\ Trigger(Ev.l, Ev.p, Ev.d) /\ U
TGone == Is("gone") /\ ~over /\ Gone(Ev.l) /\ U
TSigEnd == Is("sigend") /\ SignalEnd(Ev.p) /\ cleared' = cleared \ {Ev.p} /\ UNCHANGED over
TClear == Is("clear") /\ ClearPipe(Ev.p) /\ cleared' = cleared \cup {Ev.p} /\ UNCHANGED over
TClrEnd == Is("clrend") /\ SignalEnd(Ev.p) /\ U
TSetC == Is("setc") /\ SetCount(Ev.p, Ev.v) /\ U
TGetC == Is("getc") /\ Ev.v = (IF Ev.p \in DOMAIN cnt THEN cnt[Ev.p] ELSE -1) /\ UNCHANGED pvars /\ U
TState == Is("pstate") /\ State(Ev.p, Ev.s) /\ U
TPSig == Is("psig") /\ StateSignal(Ev.p) /\ U
TPFin == Is("pfin") /\ Ev.auto /\ Ev.ref = st[Ev.p][1] /\ Ev.yes = (st[Ev.p][2] = 0) /\ UNCHANGED pvars /\ U
TOver == Is("over") /\ over' = TRUE /\ UNCHANGED <<pvars, cleared>>
\* the holder destroys every listener that is left, once
TGone2 == Is("gone") /\ over /\ (\E x \in lis : x.l = Ev.l /\ lis' = lis \ {x}) /\ UNCHANGED <<sig, cnt, st>> /\ U
TEnd == Is("end") /\ lis = {} /\ UNCHANGED pvars /\ U
Next == TListen \/ TExists \/ TSig \/ TTrig \/ TGone \/ TSigEnd \/ TClear \/ TClrEnd \/ TSetC \/ TGetC \/ TState \/ TPSig \/ TPFin \/ TOver \/ TGone2 \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
