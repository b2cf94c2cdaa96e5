--------------------------- MODULE ActiveMsgTrace ---------------------------
EXTENDS TraceBase, ActiveMsg
VARIABLE tree
vars == <<mvars, tree, t, l>>
HH(e) == <<e.h, e.z>>
Init == TBInit /\ MInit /\ tree = [r \in {} |-> 0]
TTree == Is("tree") /\ Ev.r \notin DOMAIN tree
  /\ tree' = [r \in DOMAIN tree \cup {Ev.r} |-> IF r = Ev.r THEN Ev ELSE tree[r]] /\ UNCHANGED mvars
TSend == Is("send") /\ Send(Ev.m, Ev.s, Ev.d, HH(Ev)) /\ UNCHANGED tree
TBcast == Is("bcast") /\ Bcast(Ev.m, Ev.s, Nodes, Ev.self, HH(Ev)) /\ UNCHANGED tree
TRecv == Is("recv") /\ Deliver(Ev.m, Ev.r, HH(Ev), Ev.f) /\ UNCHANGED tree
\* the spanning tree every node computes for itself: one root, every other
\* node is the child of exactly the node it calls its parent, and the root
\* reaches everybody
RangeOf(s) == {s[i] : i \in 1 .. Len(s)}
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {RangeOf(tree[r].ch) : r \in S}, k - 1)
TreeOK ==
  /\ DOMAIN tree = Nodes
  /\ \A r \in Nodes : tree[r].root <=> (r = 0)
  /\ \A r \in Nodes : tree[r].nc = Len(tree[r].ch) /\ Cardinality(RangeOf(tree[r].ch)) = tree[r].nc
  /\ \A r \in Nodes : RangeOf(tree[r].ch) \subseteq Nodes \ {0, r}
  /\ \A r, q \in Nodes : (q \in RangeOf(tree[r].ch)) <=> (q # 0 /\ tree[q].p = r)
  /\ Reach({0}, N) = Nodes
TEnd == Is("end") /\ Quiet /\ TreeOK /\ UNCHANGED <<mvars, tree>>
Next == TTree \/ TSend \/ TBcast \/ TRecv \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
