----------------------------- MODULE Containers -----------------------------
(* Small containers: a bounded first-in-first-out buffer, a counter that      *)
(* wraps within a range, and the approximate histogram (its exact part: how   *)
(* many values it has seen, their extremes, and exact answers as long as it   *)
(* never had to merge two buckets).                                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES q, c, h
cvars == <<q, c, h>>
CInit == q = <<>> /\ c = [lo |-> 0, hi |-> 0, v |-> 0] /\ h = [x \in {} |-> 0]
Push(v) == q' = Append(q, v) /\ UNCHANGED <<c, h>>
Pop(v) == q # <<>> /\ v = Head(q) /\ q' = Tail(q) /\ UNCHANGED <<c, h>>
Up(x) == IF x.v = x.hi THEN x.lo ELSE x.v + 1
Down(x) == IF x.v = x.lo THEN x.hi ELSE x.v - 1
\* vals: value -> number of times; exact: all values are still kept apart
Hist(cap) == [vals |-> [x \in {} |-> 0], cap |-> cap, exact |-> TRUE]
HAdd(r, v, n) ==
  LET w == [x \in DOMAIN r.vals \cup {v} |-> (IF x \in DOMAIN r.vals THEN r.vals[x] ELSE 0) + (IF x = v THEN n ELSE 0)]
  IN [r EXCEPT !.vals = w, !.exact = @ /\ Cardinality(DOMAIN w) <= r.cap]
HMerge(a, b) ==
  LET g(x, f) == IF x \in DOMAIN f THEN f[x] ELSE 0
      w == [x \in DOMAIN a.vals \cup DOMAIN b.vals |-> g(x, a.vals) + g(x, b.vals)]
  IN [a EXCEPT !.vals = w, !.exact = @ /\ b.exact /\ Cardinality(DOMAIN w) <= a.cap]
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(f, S \ {x})
Count(r) == Total(r.vals, DOMAIN r.vals)
AtMost(r, v) == Total(r.vals, {x \in DOMAIN r.vals : x <= v})
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
