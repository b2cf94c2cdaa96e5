----------------------------- MODULE PhasesTrace -----------------------------
EXTENDS TraceBase, Phases
VARIABLE done
vars == <<pvars, done, t, l>>
Init == TBInit /\ PInit(Nodes) /\ done = {}
\* a node gets past its waits when its next event needs that
Moves == l <= Len(Tr) /\ Ev.e \in {"hook", "leave", "mleft"} /\ todo[Ev.r] # <<>> /\ Head(todo[Ev.r]).k # "hook" /\ Silent /\ Pass(Ev.r)
Step ==
  \/ Is("reg") /\ Register(Ev.r, Ev.h, Ev.kind, Ev.type)
  \/ Is("unreg") /\ Unregister(Ev.r, Ev.h)
  \/ Is("enter") /\ Call(Ev.r, -1)
  \/ Is("manual") /\ Call(Ev.r, Ev.type)
  \/ Is("hook") /\ Hook(Ev.r, Ev.h, Ev.ph)
  \/ Is("hend") /\ HookOver(Ev.r)
  \/ Is("leave") /\ Return(Ev.r, Ev.ph)
  \/ Is("mleft") /\ Return(Ev.r, Ev.ph)
  \/ Is("send") /\ Send(Ev.r, Ev.m, Ev.of, 1)
  \/ Is("bc") /\ Bcast(Ev.m, N)
  \/ Is("recv") /\ Handle(Ev.m)
  \/ Is("wend") /\ Handled(Ev.m)
  \/ Moves
  \/ Is("end") /\ done = Nodes /\ (AllOver = TRUE) /\ UNCHANGED pvars
Next ==
  \/ Step /\ UNCHANGED done
  \/ Is("fini") /\ done' = done \cup {Ev.r} /\ UNCHANGED pvars
Spec == Init /\ [][Next]_vars
=============================================================================
