----------------------------- MODULE Reductions -----------------------------
(* A reduction combines exactly one contribution of every party and delivers  *)
(* the combined value once to each target.                                     *)
(* con[k]  the contributions so far: node -> sequence of integers              *)
(* def[k]  [op, all, tgt, rd, g]; all parties agree on it                      *)
(* res[k]  nodes that have received the result                                 *)
(* grp[g]  the members of group g                                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES con, def, res, grp
rvars == <<con, def, res, grp>>
RInit == con = <<>> /\ def = <<>> /\ res = <<>> /\ grp = <<>>
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
RECURSIVE Pow2(_), Sum(_, _), BitsOf(_, _, _)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
Bit(x, i) == (x \div Pow2(i)) % 2 = 1
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
BitsOf(B, i, n) == IF i = n THEN 0 ELSE (IF B[i] THEN Pow2(i) ELSE 0) + BitsOf(B, i + 1, n)
FromBits(B) == BitsOf(B, 0, 8)
Odd(S) == Cardinality(S) % 2 = 1
\* one component: f[r] is what party r in S contributed
Fold(op, f, S) ==
  CASE op = "plus" -> Sum(f, S)
    [] op = "max" -> CHOOSE v \in {f[r] : r \in S} : \A r \in S : f[r] <= v
    [] op = "min" -> CHOOSE v \in {f[r] : r \in S} : \A r \in S : f[r] >= v
    [] op = "and" -> IF \A r \in S : f[r] # 0 THEN 1 ELSE 0
    [] op = "or" -> IF \E r \in S : f[r] # 0 THEN 1 ELSE 0
    [] op = "band" -> FromBits([i \in 0 .. 7 |-> \A r \in S : Bit(f[r], i)])
    [] op = "bor" -> FromBits([i \in 0 .. 7 |-> \E r \in S : Bit(f[r], i)])
    [] OTHER -> FromBits([i \in 0 .. 7 |-> Odd({r \in S : Bit(f[r], i)})])
Base(op) == CASE op \in {"vplus", "tplus"} -> "plus" [] op = "vmax" -> "max" [] op = "vmin" -> "min" [] OTHER -> op
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
\* is v the combination of the contributions c (node -> sequence) of S?
Combined(op, c, S, v) ==
  IF op = "cat" THEN   \* all the contributed values, as a bag
    /\ Len(v) = Sum([r \in S |-> Len(c[r])], S)
    /\ \A i \in DOMAIN v : Count(v, v[i]) = Sum([r \in S |-> Count(c[r], v[i])], S)
  ELSE LET n == Len(c[CHOOSE r \in S : TRUE]) IN
    /\ Len(v) = n
    /\ \A i \in 1 .. n : v[i] = Fold(Base(op), [r \in S |-> c[r][i]], S)
Join(g, r, in) == grp' = With(grp, g, At(grp, g, {}) \cup (IF in THEN {r} ELSE {})) /\ UNCHANGED <<con, def, res>>
Contribute(k, r, d, v) ==
  /\ k \in DOMAIN def => def[k] = d
  /\ r \notin DOMAIN At(con, k, <<>>)
  /\ def' = With(def, k, d)
  /\ con' = With(con, k, With(At(con, k, <<>>), r, v))
  /\ UNCHANGED <<res, grp>>
Parties(d, nodes) == IF d.g = -1 THEN nodes ELSE grp[d.g]
Targets(d, nodes) == IF d.all THEN nodes ELSE {d.tgt}
Result(k, r, v, nodes) ==
  /\ k \in DOMAIN def
  /\ DOMAIN con[k] = Parties(def[k], nodes)
  /\ r \in Targets(def[k], nodes) \ At(res, k, {})
  /\ Combined(def[k].op, con[k], DOMAIN con[k], v)
  /\ res' = With(res, k, At(res, k, {}) \cup {r})
  /\ UNCHANGED <<con, def, grp>>
Over(rd, nodes) == \A k \in DOMAIN def : def[k].rd <= rd => At(res, k, {}) = Targets(def[k], nodes)
=============================================================================
