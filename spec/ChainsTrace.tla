---------------------------- MODULE ChainsTrace ----------------------------
EXTENDS TraceBase, Chains
VARIABLES over, sets
vars == <<cvars, over, sets, t, l>>
Set(s) == {s[i] : i \in 1 .. Len(s)}
Init == TBInit /\ CInit /\ over = {} /\ sets = <<>>
TElems == Is("elems") /\ Elems(Set(Ev.v))
TAdd == Is("add") /\ Add(Ev.s, Ev.g, Ev.i, Ev.in)
TShut == Is("shut") /\ Shut(Ev.g, Ev.r)
TStep == Is("step") /\ Begin(Ev.s, Ev.i, Nodes)
TOver == Is("over") /\ End(Ev.s)
TSend == Is("send") /\ Send(Ev.m, Ev.s)
TRecv == Is("recv") /\ Recv(Ev.m)
TDone == Is("done") /\ Done(Ev.m)
\* each element is stepped once in each round: it is in one node's part of the set
TRend == Is("rend") /\ (Quiet(Ev.rd) = TRUE) /\ ((\A k \in 1 .. Len(Ev.all), i \in elems : Ev.all[k] * 1000 + i \in DOMAIN step) = TRUE) /\ UNCHANGED cvars
TEnd == Is("end") /\ over = Nodes /\ (Quiet(1000) = TRUE) /\ UNCHANGED cvars
\* when nothing is under way the nodes' parts of a set make up the elements
TReset == Is("reset") /\ UNCHANGED cvars
Next ==
  \/ (TElems \/ TAdd \/ TShut \/ TStep \/ TOver \/ TSend \/ TRecv \/ TDone \/ TRend \/ TEnd \/ TReset) /\ UNCHANGED <<over, sets>>
  \/ Is("fini") /\ over' = over \cup {Ev.r} /\ UNCHANGED <<cvars, sets>>
  \/ /\ Is("set")
     /\ LET old == At(sets, Ev.w, <<>>)
            new == With(old, Ev.r, Set(Ev.v)) IN
        /\ Ev.r \notin DOMAIN old
        /\ (\A r \in DOMAIN old : old[r] \cap Set(Ev.v) = {})
        /\ (DOMAIN new = Nodes => UNION {new[r] : r \in Nodes} = elems)
        /\ sets' = With(sets, Ev.w, new)
     /\ UNCHANGED <<cvars, over>>
Spec == Init /\ [][Next]_vars
=============================================================================
