------------------------------- MODULE IntSet -------------------------------
(* What the interval-compressed IntegralSet is to its user: sets of integers. *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE sets                      \* name -> set of integers
SInit == sets = [x \in {0} |-> {}]
Put(s, S) == sets' = [x \in DOMAIN sets \cup {s} |-> IF x = s THEN S ELSE sets[x]]
Ins(s, v) == Put(s, sets[s] \cup {v})
InsAll(s, a, b) == Put(s, sets[s] \cup (a .. b))
Del(s, v) == Put(s, sets[s] \ {v})
Clear(s) == Put(s, {})
Copy(s, d) == Put(d, sets[s])
\* the number of maximal runs of consecutive members: the compressed size
Runs(S) == Cardinality({v \in S : v - 1 \notin S})
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* a sequence that lists S in increasing order, once each
Lists(q, S) == /\ Len(q) = Cardinality(S) /\ \A i \in 1 .. Len(q) : q[i] \in S
               /\ \A i \in 2 .. Len(q) : q[i - 1] < q[i]
=============================================================================
