------------------------------ MODULE PoolTrace ------------------------------
EXTENDS TraceBase, Pool
vars == <<blocks, t, l>>
Init == TBInit /\ PInit
TAlloc == Is("alloc") /\ Ev.al /\ Ev.as = Ev.sz + Ev.ov /\ Alloc(Ev.id, Ev.at, Ev.sz + Ev.ov)
TGrow == Is("grow")
  /\ Ev.yes = (Ev.g <= Ev.rem)
  /\ Ev.left = (IF Ev.yes THEN Ev.rem - Ev.g ELSE Ev.rem)
  /\ IF Ev.yes THEN Grow(Ev.id, Ev.g) ELSE UNCHANGED blocks
  /\ Ev.as = Blk(Ev.id).n + (IF Ev.yes THEN Ev.g ELSE 0)
TFree == Is("free") /\ Ev.ok = 1 /\ Ev.as = Blk(Ev.id).n /\ Free(Ev.id)
TEnd == Is("end") /\ blocks = {}
  /\ UNCHANGED blocks
Next == TAlloc \/ TGrow \/ TFree \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
