---------------------------- MODULE DenseIndex ----------------------------
(* Dense multi-dimensional index ranges 0..d[1]-1 x ... and the standard      *)
(* mappings of an index to a node.                                            *)
EXTENDS Integers, Sequences
RECURSIVE Prod(_, _, _)
Prod(d, a, b) == IF a > b THEN 1 ELSE d[a] * Prod(d, a + 1, b)
Size(d) == Prod(d, 1, Len(d))
\* the k-th index when the first dimension varies fastest
Kth(d, k) == [j \in 1 .. Len(d) |-> (k \div Prod(d, 1, j - 1)) % d[j]]
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
\* linear position with the first (the last) dimension varying fastest
FirstFast(d, i) == Sum([j \in 1 .. Len(d) |-> i[j] * Prod(d, 1, j - 1)], Len(d))
LastFast(d, i) == Sum([j \in 1 .. Len(d) |-> i[j] * Prod(d, j + 1, Len(d))], Len(d))
\* order: the last dimension is the most significant
Less(a, b) == \E j \in 1 .. Len(a) : a[j] < b[j] /\ \A k \in (j + 1) .. Len(a) : a[k] = b[k]
\* contiguous blocks whose sizes differ by at most one: sizes[n+1] of node n
Balanced(counts) == \A a, b \in DOMAIN counts : counts[a] <= counts[b] + 1
=============================================================================
