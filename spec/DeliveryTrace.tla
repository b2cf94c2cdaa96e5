--------------------------- MODULE DeliveryTrace ---------------------------
EXTENDS TraceBase, Delivery
VARIABLE over
vars == <<dvars, over, t, l>>
Set(s) == {s[i] : i \in 1 .. Len(s)}
Init == TBInit /\ DInit /\ over = {}
TOwe == Is("owe") /\ Owe(Ev.m, Ev.k, Ev.o, Set(Ev.to), Ev.sum, Ev.rd)
TGOwe == Is("gowe") /\ GroupOwe(Ev.m, Ev.g, Ev.o, Ev.sum, Ev.rd)
TGot == Is("got") /\ "tag" \notin DOMAIN Ev /\ Got(Ev.m, Ev.k, Ev.o, Ev.r, Ev.sum)
TOGot == Is("got") /\ "tag" \in DOMAIN Ev /\ <<Ev.o, Ev.r>> \in DOMAIN obj /\ ObjGot(Ev.m, Ev.o, Ev.r, Ev.sum, Ev.tag, Ev.cnt)
TMkg == Is("mkg") /\ MakeGroup(Ev.g, Set(Ev.mem))
TGin == Is("gin") /\ Join(Ev.g, Ev.r, Ev.in)
TReady == Is("ready") /\ Ready(Ev.g, Ev.r, Nodes)
TIsin == Is("isin") /\ IsIn(Ev.g, Ev.r, Ev.in)
TMko == Is("mko") /\ MakeObj(Ev.o, Ev.r, Ev.tag)
TUpd == Is("upd") /\ NewObj(Ev.o, Ev.r, Ev.tag)
TDel == Is("delo") /\ CutObj(Ev.o, Ev.r)
TGet == Is("get") /\ Ev.same /\ See(Ev.o, Ev.r, Ev.tag)
\* a direct call returns what the object returns
TInv == Is("inv") /\ See(Ev.o, Ev.r, Ev.val)
TCb == Is("mkcb") /\ UNCHANGED dvars
TRend == Is("rend") /\ (Over(Ev.rd, Nodes) = TRUE) /\ UNCHANGED dvars
TEnd == Is("end") /\ owe = {} /\ over = Nodes /\ UNCHANGED dvars
Plain == TOwe \/ TGOwe \/ TGot \/ TOGot \/ TMkg \/ TGin \/ TReady \/ TIsin \/ TMko \/ TUpd \/ TDel \/ TGet \/ TInv \/ TCb \/ TRend \/ TEnd
TFini == Is("fini") /\ over' = over \cup {Ev.r} /\ UNCHANGED dvars
Next == (Plain /\ UNCHANGED over) \/ TFini
Spec == Init /\ [][Next]_vars
=============================================================================
