------------------------------ MODULE MCTerm ------------------------------
(* The abstract specification by itself: bounded workloads over nested       *)
(* epochs, to show its rules imply what T01..T03 state.                      *)
EXTENDS Termination
CONSTANTS Eps, Nodes, Ids
N == Nodes
VARIABLE born
vars == <<tvars, born>>
Init == TInit /\ born = {}
Live(e) == Known(e) /\ ~Quiet(e)
Next ==
  \/ \E e \in Eps, ps \in SUBSET Eps, nd \in (SUBSET N) \ {{}} :
       /\ ~Known(e) /\ \A p \in ps : Live(p)         \* the parent is current, so it is held by something
       /\ NewEpoch(e, ps, nd) /\ UNCHANGED born
  \/ \E e \in Eps, n \in N : Known(e) /\ n \in need[e] /\ <<e, n>> \notin fin /\ Finish(e, n) /\ UNCHANGED born
  \/ \E i \in Ids, e \in Eps : i \notin born /\ Live(e) /\ AddWork(i, 1, e) /\ born' = born \cup {i}
  \/ \E i \in Ids : WorkDone(i) /\ UNCHANGED born
  \/ \E i \in Ids, e \in Eps, n \in N : i \notin born /\ Known(e) /\ AddAction(i, e, n, "") /\ born' = born \cup {i}
  \/ \E i \in Ids, n \in N : RunAction(i, n) /\ UNCHANGED born
  \/ \E e \in Eps : Poll(e, TRUE) /\ UNCHANGED born
Spec == Init /\ [][Next]_vars
DoneQuiet == \A e \in done : (\A u \in work : u.ep # e) /\ (\A n \in need[e] : <<e, n>> \in fin)
DoneNested == \A e \in done : \A c \in DOMAIN par : e \in par[c] => c \in done
\* once reported, termination is final
Final == [][done \subseteq done']_vars
=============================================================================
