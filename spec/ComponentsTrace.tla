-------------------------- MODULE ComponentsTrace --------------------------
EXTENDS TraceBase, Components
vars == <<convars, t, l>>
Init == TBInit /\ CoInit
Next ==
  \/ Is("reg") /\ Register(Ev.x, ToSet(Ev.s), ToSet(Ev.q), Ev.poll)
  \/ Is("add") /\ Add(Ev.x)
  \/ Is("go") /\ Go(Ev.live)
  \/ Is("ctor") /\ Construct(Ev.x, Ev.ok)
  \/ Is("init") /\ Initialize(Ev.x, Ev.ref)
  \/ Is("start") /\ Start(Ev.x)
  \/ Is("made") /\ Live(Ev.live)
  \/ Is("each") /\ Each(Ev.v)
  \/ Is("pr") /\ Poll
  \/ Is("prog") /\ Polled(Ev.x, Ev.v)
  \/ Is("tot") /\ PollOver(Ev.v)
  \/ Is("ext") /\ Take(Ev.x, Ev.v)
  \/ Is("stop") /\ Stop
  \/ Is("fin") /\ Finalize(Ev.x)
  \/ Is("dtor") /\ Destroy(Ev.x)
  \/ Is("gone") /\ Gone(Ev.live)
  \/ Is("leave") /\ UNCHANGED convars
  \/ Is("fini") /\ Over
  \/ Is("end") /\ UNCHANGED convars
Spec == Init /\ [][Next]_vars
=============================================================================
