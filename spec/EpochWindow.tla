---------------------------- MODULE EpochWindow ----------------------------
(* Allocating epoch identifiers.  An epoch is a record                        *)
(*   [ep, rooted, cat, node, seq]  (ep: the raw bits, for identity only).     *)
(* A window is the family of epochs that differ in seq only.                  *)
EXTENDS Integers, FiniteSets
VARIABLES active, used, last, count    \* epochs; per window: last seq given out, number terminated
evars == <<active, used, last, count>>
Win(e) == IF e.rooted THEN <<e.cat, e.node>> ELSE <<"collective">>
EInit == active = {} /\ used = {} /\ last = [w \in {} |-> 0] /\ count = [w \in {} |-> 0]
Set1(f, w, v) == [x \in DOMAIN f \cup {w} |-> IF x = w THEN v ELSE f[x]]
Alloc(e) ==
  /\ e \notin active /\ e \notin used
  /\ Win(e) \in DOMAIN last => e.seq = last[Win(e)] + 1      \* identifiers are not skipped
  /\ active' = active \cup {e} /\ used' = used \cup {e}
  /\ last' = Set1(last, Win(e), e.seq)
Activate(e) == active' = active \cup {e} /\ UNCHANGED <<used, last, count>>
Terminate(e) == e \in active /\ active' = active \ {e} /\ UNCHANGED <<used, last>>
Counted(w, tt, by) == (w \in DOMAIN count => tt = count[w] + by) /\ count' = Set1(count, w, tt)
=============================================================================
