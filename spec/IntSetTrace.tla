---------------------------- MODULE IntSetTrace ----------------------------
EXTENDS TraceBase, IntSet
vars == <<sets, t, l>>
Init == TBInit /\ SInit
TIns == Is("ins") /\ Ins(Ev.s, Ev.v)
TInsI == Is("insi") /\ InsAll(Ev.s, Ev.lo, Ev.hi)
TDel == Is("del") /\ Del(Ev.s, Ev.v)
TClr == Is("clr") /\ Clear(Ev.s)
TCopy == Is("copy") /\ Copy(Ev.s, Ev.d)
THas == Is("has") /\ Ev.yes = (Ev.v \in sets[Ev.s]) /\ UNCHANGED sets
TAll == Is("all") /\ UNCHANGED sets
  /\ LET S == sets[Ev.s] IN
     /\ Lists(Ev.it, S) /\ Ev.size = Cardinality(S) /\ Ev.empty = (S = {}) /\ Ev.comp = Runs(S)
     /\ IF S = {} THEN Ev.lo = -1 /\ Ev.hi = -1 ELSE Ev.lo = Min(S) /\ Ev.hi = Max(S)
TEnd == Is("end") /\ UNCHANGED sets
Next == TIns \/ TInsI \/ TDel \/ TClr \/ TCopy \/ THas \/ TAll \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
