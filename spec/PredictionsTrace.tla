-------------------------- MODULE PredictionsTrace --------------------------
EXTENDS TraceBase, Predictions
vars == <<pvars, t, l>>
Init == TBInit /\ PInit
Next ==
  \/ Is("obj") /\ Object(Ev.o, Ev.c)
  \/ Is("load") /\ Record(Ev.p, Ev.o, Ev.w, Ev.s)
  \/ Is("comm") /\ Message(Ev)
  \/ Is("model") /\ Layer(Ev)
  \/ Is("keep") /\ Keep(Ev.x)
  \/ Is("come") /\ Arrive(Ev.o, Ev.a, Ev.b)
  \/ Is("upd") /\ Update(Ev.p)
  \/ Is("objs") /\ Seen(Ev.v, Ev.n, Ev.cnt, Ev.phs, Ev.sub) /\ UNCHANGED pvars
  \/ Is("need") /\ Needed(Ev.x, Ev.v) /\ UNCHANGED pvars
  \/ Is("q") /\ (Predicted(Ev.o, Ev.ph, Ev.s, Ev.v, Ev.x) = TRUE) /\ UNCHANGED pvars
  \/ Is("qc") /\ CommPredicted(Ev.o, Ev.ph, Ev.s, Ev.v, Ev.x) /\ UNCHANGED pvars
  \/ Is("qr") /\ RawLoad(Ev.o, Ev.ph, Ev.v) /\ UNCHANGED pvars
  \/ Is("drop") /\ Drop
  \/ Is("fini") /\ UNCHANGED pvars
  \/ Is("end") /\ UNCHANGED pvars
Spec == Init /\ [][Next]_vars
=============================================================================
