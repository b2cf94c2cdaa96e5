---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS TraceBase, Options
vars == <<t, l>>
Init == TBInit
Next ==
  \/ Is("cfg") /\ (Configured(Ev.rc, Ev.d, Ev.a, Ev.y, Ev.t, Ev.c, Ev.g) = TRUE) /\ Ev.prog
  \/ Is("argv") /\ Parsed(Ev.k, Ev.x, Ev.rest)
  \/ Is("again") /\ WrittenAndRead(Ev.rc, Ev.rc2, Ev.b, Ev.g)
  \/ Is("fini")
  \/ Is("end")
Spec == Init /\ [][Next]_vars
=============================================================================
