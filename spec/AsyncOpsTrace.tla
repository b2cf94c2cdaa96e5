---------------------------- MODULE AsyncOpsTrace ----------------------------
EXTENDS TraceBase, AsyncOps
VARIABLE done
vars == <<avars, done, t, l>>
Init == TBInit /\ AInit /\ done = {}
Step ==
  \/ Is("send") /\ Send(Ev.m, Ev.rd)
  \/ Is("recv") /\ Recv(Ev.m, Ev.rd)
  \/ Is("wend") /\ (Done(Ev.m))
  \/ Is("op") /\ Start(Ev.id, Ev.rd, Ev.blk, Ev.m, Ev.n)
  \/ Is("flag") /\ Flag(Ev.id)
  \/ Is("poll") /\ Poll(Ev.id, Ev.v)
  \/ Is("done") /\ Complete(Ev.id)
  \/ Is("dend") /\ Completed(Ev.id)
  \/ Is("resume") /\ Ev.ok /\ Resume(Ev.id)
  \/ Is("shut") /\ Shut(Ev.r, Ev.rd)
  \/ Is("over") /\ Over(Ev.rd, IF Ev.root THEN {Ev.r} ELSE Nodes)
  \/ Is("new") /\ New(Ev.r, Ev.x, FALSE, <<>>)
  \/ Is("par") /\ New(Ev.r, Ev.x, TRUE, Ev.of)
  \/ Is("shot") /\ Shot(Ev.x)
  \/ Is("look") /\ Look(Ev.x, Ev.v)
  \/ Is("att") /\ Attach(Ev.r, Ev.x, Ev.a)
  \/ Is("act") /\ Act(Ev.r, Ev.a)
  \/ (Is("open") \/ Is("tell") \/ Is("asked")) /\ UNCHANGED avars
  \/ Is("end") /\ done = Nodes /\ (AllOver = TRUE) /\ UNCHANGED avars
Next ==
  \/ Step /\ UNCHANGED done
  \/ Is("fini") /\ done' = done \cup {Ev.r} /\ UNCHANGED avars
Spec == Init /\ [][Next]_vars
=============================================================================
