----------------------------- MODULE RegionTrace -----------------------------
EXTENDS TraceBase, Region
vars == <<rvars, t, l>>
Init == TBInit /\ RInit
TRange == Is("range") /\ Make(Ev.id, Strided(Ev.lo, Ev.hi, Ev.st))
TList == Is("list") /\ Make(Ev.id, SetOf(Ev.v))
TSize == Is("size") /\ Ev.n = Cardinality(reg[Ev.id]) /\ UNCHANGED rvars
THas == Is("has") /\ Ev.yes = (Ev.v \in reg[Ev.id]) /\ UNCHANGED rvars
TElems == Is("elems") /\ Lists(Ev.v, reg[Ev.id]) /\ (Ev.id \in sorted => InOrder(Ev.v)) /\ UNCHANGED rvars
THead == Is("head") /\ Ev.v \in reg[Ev.id] /\ UNCHANGED rvars
TTail == Is("tail") /\ Tail1(Ev.id, Ev.d, Ev.v)
TCopy == Is("copy") /\ Make(Ev.d, reg[Ev.id])
TSort == Is("sort") /\ sorted' = sorted \cup {Ev.id} /\ UNCHANGED reg
TSplit == Is("split") /\ Split(Ev.id, <<Ev.a, Ev.b>>, <<SetOf(Ev.va), SetOf(Ev.vb)>>)
TSplitN == Is("splitn")
  /\ Len(Ev.ds) = (IF Ev.n < Cardinality(reg[Ev.id]) THEN Ev.n ELSE Cardinality(reg[Ev.id]))
  /\ Split(Ev.id, Ev.ds, [i \in 1 .. Len(Ev.vs) |-> SetOf(Ev.vs[i])])
TMembers == Is("members") /\ SetOf(Ev.v) = reg[Ev.id] /\ Ev.n = Cardinality(reg[Ev.id]) /\ UNCHANGED rvars
TEnd == Is("end") /\ UNCHANGED rvars
Next == TRange \/ TList \/ TSize \/ THas \/ TElems \/ THead \/ TTail \/ TCopy \/ TSort \/ TSplit \/ TSplitN \/ TMembers \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
