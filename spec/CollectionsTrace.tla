-------------------------- MODULE CollectionsTrace --------------------------
EXTENDS TraceBase, Collections
VARIABLES lbn, over     \* nodes inside a load balancing step (n) or restoring a collection in place (-1-n); nodes shutting down
vars == <<cvars, lbn, over, t, l>>
Init == TBInit /\ CInit /\ lbn = {} /\ over = {}
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1 .. Len(s)}
TMake == Is("coll") /\ Make(Ev.c, Pairs(Ev.exp), Ev.tag)
TSend == Is("send") /\ Send(Ev.m, Ev.c, Ev.i, Ev.rd)
TBcast == Is("bcast") /\ Bcast(Ev.m, Ev.c, Ev.rd)
TBcl == Is("bcl") /\ BcastHere(Ev.m, Ev.c, Ev.rd, Ev.r)
TRecv == Is("recv") /\ Handle(Ev.m, Ev.c, Ev.i, Ev.r, Ev.cnt, Ev.h, Ev.tag)
TMig == Is("mig") /\ AskMove(Ev.c, Ev.i, Ev.r, Ev.to, Ev.rd)
TOut == Is("out") /\ Leave(Ev.c, Ev.i, Ev.r, Ev.cnt, Ev.h, (Ev.r \in lbn \/ \E q \in lbn : q < 0))
TIn == Is("in") /\ Arrive(Ev.c, Ev.i, Ev.r, Ev.cnt, Ev.h)
TIns == Is("ins") /\ AskInsert(Ev.c, Ev.i, Ev.at, Ev.rd)
TDel == Is("del") /\ AskRemove(Ev.c, Ev.i, Ev.rd)
TMod == Is("modend") /\ EndModification(Ev.c, Ev.rd, 5)
TGone == Is("gone") /\ Gone(Ev.c, Ev.i, Ev.r, Ev.r \in over)
TKill == Is("kill") /\ Kill(Ev.c, Ev.rd)
TList == Is("list") /\ List(Ev.c, Ev.r, Set(Ev.is))
TRBeg == Is("rbeg") /\ Reduce(Ev.k, Ev.c, Ev.kind, Ev.t, Nodes)
TRed == Is("red") /\ Ev.same /\ Reduced(Ev.k, Ev.c, Ev.i, Ev.r, Set(Ev.els), Len(Ev.els))
TAsk == Is("ask") /\ Ask(Ev.m, Ev.rd)
TWhere == Is("where") /\ Answer(Ev.m, Ev.c, Ev.i, Ev.at, Ev.home)
TRend == Is("rend") /\ (Over(Ev.rd) = TRUE) /\ UNCHANGED cvars
TEnd == Is("end") /\ el = <<>> /\ over = Nodes /\ UNCHANGED cvars
TSave == Is("save") /\ Save(Ev.c, Ev.f)
TRest == Is("rest") /\ Ev.lab /\ Restore(Ev.c, Ev.f)
Plain == TSave \/ TRest \/ TMake \/ TSend \/ TBcast \/ TBcl \/ TRecv \/ TMig \/ TOut \/ TIn \/ TIns \/ TDel \/ TMod \/ TGone \/ TKill \/ TList \/ TRBeg \/ TRed \/ TAsk \/ TWhere \/ TRend \/ TEnd
TLbBeg == Is("lbbeg") /\ lbn' = lbn \cup {Ev.r} /\ UNCHANGED <<cvars, over>>
TLbEnd == Is("lbend") /\ Balanced /\ lbn' = lbn \ {Ev.r} /\ UNCHANGED <<cvars, over>>
TRsBeg == Is("rsbeg") /\ lbn' = lbn \cup {-1 - Ev.r} /\ UNCHANGED <<cvars, over>>
TRsEnd == Is("rsend") /\ RestoreHere(Ev.c, Ev.f, Ev.r) /\ lbn' = lbn \ {-1 - Ev.r} /\ UNCHANGED over
TFini == Is("fini") /\ over' = over \cup {Ev.r} /\ UNCHANGED <<cvars, lbn>>
Next == (Plain /\ UNCHANGED <<lbn, over>>) \/ TLbBeg \/ TLbEnd \/ TRsBeg \/ TRsEnd \/ TFini
Spec == Init /\ [][Next]_vars
=============================================================================
