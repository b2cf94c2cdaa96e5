---------------------------- MODULE RemoteMemTrace ----------------------------
EXTENDS RemoteMem, TraceBase
VARIABLE done
Init == RInit /\ TBInit /\ done = {}
B == <<Ev.h, Ev.o>>
Step ==
  \/ Is("mk") /\ Make(B, Ev.n)
  \/ Is("cut") /\ Cut(B)
  \/ Is("cnt") /\ Count(B, Ev.n)
  \/ Is("put") /\ Put(B, Ev.off, Ev.v)
  \/ Is("get") /\ Get(B, Ev.off, Ev.v)
  \/ Is("acc") /\ Acc(B, Ev.off, Ev.op, Ev.v)
  \/ Is("loc") /\ Local(B, Ev.v)
  \/ Is("see") /\ See(B, Ev.v)
  \/ Is("crd") /\ Enter(B, Ev.a, Ev.off, Ev.v)
  \/ Is("cwr") /\ Leave(B, Ev.a, Ev.off, Ev.v)
  \/ Is("fop") /\ FetchOp(B, Ev.off, Ev.op, Ev.v, Ev.out, l, Ev.a)
  \/ Is("over") /\ RoundOver
  \/ Is("end") /\ done = Nodes /\ UNCHANGED rvars
Next ==
  \/ Step /\ UNCHANGED done
  \/ Is("fini") /\ done' = done \cup {Ev.r} /\ UNCHANGED rvars
Spec == Init /\ [][Next]_<<t, l, done, rvars>>
=============================================================================
