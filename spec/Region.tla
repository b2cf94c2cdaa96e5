------------------------------- MODULE Region -------------------------------
(* Regions of nodes (ranges with a stride, lists): sets of node numbers.      *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES reg, sorted        \* id -> set of nodes; ids sorted explicitly
rvars == <<reg, sorted>>
RInit == reg = [x \in {} |-> {}] /\ sorted = {}
SetOf(q) == {q[i] : i \in 1 .. Len(q)}
Def(id, S) == [x \in DOMAIN reg \cup {id} |-> IF x = id THEN S ELSE reg[x]]
Strided(lo, hi, st) == {x \in lo .. (hi - 1) : (x - lo) % st = 0}
Make(id, S) == reg' = Def(id, S) /\ UNCHANGED sorted
Lists(q, S) == Len(q) = Cardinality(S) /\ SetOf(q) = S
InOrder(q) == \A i \in 2 .. Len(q) : q[i - 1] < q[i]
Tail1(id, d, h) == h \in reg[id] /\ Make(d, reg[id] \ {h})
\* parts is a sequence of sets: a partition of the region into non-empty parts
Partition(parts, S) ==
  /\ UNION SetOf(parts) = S
  /\ \A i \in 1 .. Len(parts) : parts[i] # {}
  /\ \A i, j \in 1 .. Len(parts) : i # j => parts[i] \cap parts[j] = {}
Split(id, ds, parts) ==
  /\ Partition(parts, reg[id])
  /\ reg' = [x \in DOMAIN reg \cup SetOf(ds) |-> IF x \in SetOf(ds) THEN parts[CHOOSE i \in 1 .. Len(ds) : ds[i] = x] ELSE reg[x]]
  /\ UNCHANGED sorted
=============================================================================
