--------------------------- MODULE SchedulerTrace ---------------------------
EXTENDS TraceBase, Scheduler
VARIABLE done
vars == <<schvars, done, t, l>>
Init == TBInit /\ SchInit(Nodes) /\ done = {}
Step ==
  \/ Is("enq") /\ Enqueue(Ev.r, Ev.id, Ev.p)
  \/ Is("run") /\ Run(Ev.r, Ev.id, P.k)
  \/ Is("ran") /\ Over(Ev.r, "unit", Ev.id)
  \/ Is("mrun") /\ Handle(Ev.r, Ev.id, Ev.p, P.k)
  \/ Is("mran") /\ Over(Ev.r, "msg", Ev.id)
  \/ Is("send") /\ Post(Ev.r, Ev.id, Ev.p)
  \/ Is("from") /\ Derived(Ev.op, Ev.ol, Ev.p, Ev.inc, Ev.np, Ev.nl)
  \/ Is("poll") /\ Poll(Ev.r)
  \/ Is("deaf") /\ Deaf(Ev.r)
  \/ Is("loop") /\ Call(Ev.r, Ev.d)
  \/ Is("stop") /\ Stop(Ev.r)
  \/ Is("left") /\ Left(Ev.r, Ev.d)
  \/ Is("ie") /\ InEpoch(Ev.r)
  \/ Is("body") /\ Body(Ev.r)
  \/ Is("ieover") /\ EpochOver(Ev.r)
  \/ Is("reg") /\ Register(Ev.r, Ev.ev, Ev.k, Ev.once)
  \/ Is("trig") /\ Fire(Ev.r, Ev.ev, Ev.k, Ev.d)
  \/ Is("tran") /\ Fired(Ev.r)
  \/ Is("start") /\ UNCHANGED schvars
  \/ Is("end") /\ done = Nodes /\ msg = {} /\ ((\A r \in Nodes : Finished(r)) = TRUE) /\ UNCHANGED schvars
Next ==
  \/ Step /\ UNCHANGED done
  \/ Is("fini") /\ ctx[Ev.r] = <<>> /\ done' = done \cup {Ev.r} /\ UNCHANGED schvars
Spec == Init /\ [][Next]_vars
=============================================================================
