--------------------------- MODULE LifetimesTrace ---------------------------
EXTENDS TraceBase, Lifetimes
VARIABLE done
vars == <<lifevars, done, t, l>>
Init == TBInit /\ LInit(Nodes) /\ done = {}
Step ==
  \/ Is("up") /\ Up(Ev.r, Ev.i, Ev.node, Ev.n, Ev.of, Ev.ph)
  \/ Is("send") /\ Post(Ev.r, Ev.i, Ev.m, Ev.n)
  \/ Is("recv") /\ Begin(Ev.r, Ev.m, Ev.i)
  \/ Is("wend") /\ End(Ev.r, Ev.m)
  \/ Is("fin") /\ Finish(Ev.r, Ev.i)
  \/ Is("down") /\ Down(Ev.r, Ev.i)
  \/ Is("in") /\ UNCHANGED lifevars
  \/ Is("end") /\ done = Nodes /\ UNCHANGED lifevars
Next ==
  \/ Step /\ UNCHANGED done
  \/ Is("fini") /\ AllDown(Ev.r) /\ done' = done \cup {Ev.r} /\ UNCHANGED lifevars
Spec == Init /\ [][Next]_vars
=============================================================================
