----------------------------- MODULE MCInterval -----------------------------
(* The interval representation of IntegralSet refines a set of integers:     *)
(* inserting joins neighbouring intervals, erasing splits one.  iv is the     *)
(* sorted sequence of intervals <<lo, hi>>.                                   *)
EXTENDS IntSet
CONSTANT U
VARIABLE iv
Elems(q) == UNION {q[i][1] .. q[i][2] : i \in 1 .. Len(q)}
MInit == iv = <<>> /\ SInit
Before(v) == Cardinality({i \in 1 .. Len(iv) : iv[i][2] < v})
Ins1(v) ==
  LET k == Before(v)
      jl == k >= 1 /\ iv[k][2] = v - 1
      jr == k < Len(iv) /\ iv[k + 1][1] = v + 1
      lo == IF jl THEN iv[k][1] ELSE v
      hi == IF jr THEN iv[k + 1][2] ELSE v
  IN SubSeq(iv, 1, IF jl THEN k - 1 ELSE k) \o << <<lo, hi>> >> \o SubSeq(iv, IF jr THEN k + 2 ELSE k + 1, Len(iv))
Del1(v) ==
  LET k == Before(v) + 1
      a == iv[k][1] b == iv[k][2]
      mid == (IF a < v THEN << <<a, v - 1>> >> ELSE <<>>) \o (IF v < b THEN << <<v + 1, b>> >> ELSE <<>>)
  IN SubSeq(iv, 1, k - 1) \o mid \o SubSeq(iv, k + 1, Len(iv))
Next ==
  \/ \E v \in 1 .. U : v \notin Elems(iv) /\ iv' = Ins1(v) /\ Ins(0, v)
  \/ \E v \in 1 .. U : v \in Elems(iv) /\ iv' = Del1(v) /\ Del(0, v)
  \/ iv' = <<>> /\ Clear(0)
Spec == MInit /\ [][Next]_<<iv, sets>>
Refines == Elems(iv) = sets[0]
Sorted == \A i \in 2 .. Len(iv) : iv[i - 1][2] + 1 < iv[i][1]
Whole == \A i \in 1 .. Len(iv) : iv[i][1] <= iv[i][2]
Compressed == Len(iv) = Runs(sets[0])
=============================================================================
