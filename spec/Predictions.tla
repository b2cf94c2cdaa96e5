---------------------------- MODULE Predictions ----------------------------
(* Load models.  A model is a stack: the recorded loads at the bottom, and    *)
(* on it layers that say what a question about an object means - a phase to    *)
(* come (offset >= 0) or one that has been (offset < 0, counted from the last  *)
(* completed one), as a whole or one of its subphases.  Whole = -1.           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES loads, comms, coll, kept, stack, come, completed
pvars == <<loads, comms, coll, kept, stack, come, completed>>
PInit == loads = <<>> /\ comms = <<>> /\ coll = <<>> /\ kept = <<>> /\ stack = <<>> /\ come = <<>> /\ completed = 0
Whole == -1
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Front(st) == SubSeq(st, 1, Len(st) - 1)
Top(st) == st[Len(st)]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE SumSq(_)
SumSq(q) == IF q = <<>> THEN 0 ELSE Head(q) * Head(q) + SumSq(Tail(q))
MaxOf(q) == LET V == {q[i] : i \in 1 .. Len(q)} \cup {0} IN CHOOSE x \in V : \A y \in V : y <= x
\* how many of q are below, or at i and before
Rank(q, i) == Cardinality({j \in 1 .. Len(q) : q[j] < q[i] \/ (q[j] = q[i] /\ j <= i)})
Nth(q, k) == q[CHOOSE i \in 1 .. Len(q) : Rank(q, i) = k]
Median(q) == LET n == Len(q) IN IF n % 2 = 1 THEN Nth(q, (n + 1) \div 2) ELSE (Nth(q, n \div 2) + Nth(q, n \div 2 + 1)) \div 2
Of(x, s) == IF s = Whole THEN x.w ELSE x.s[s + 1]
Recorded(o, ph, s) == LET p == completed + ph IN IF <<p, o>> \in DOMAIN loads THEN Of(loads[<<p, o>>], s) ELSE 0
Present == {o \in DOMAIN coll : <<completed - 1, o>> \in DOMAIN loads}
Comm(ph) == SelectSeq(comms, LAMBDA c : c.p = completed + ph)
Cost(q, m, b) == Sum([i \in 1 .. Len(q) |-> m * q[i].m + b * q[i].b])

RECURSIVE Subphases(_)
Subphases(st) ==
  LET x == Top(st) IN
  IF x.k = "raw" THEN (IF Present = {} THEN 0 ELSE Len(loads[<<completed - 1, CHOOSE o \in Present : TRUE>>].s))
  ELSE IF x.k = "sub" THEN Len(x.s) ELSE Subphases(Front(st))

RECURSIVE CommLoad(_, _, _, _)
RECURSIVE Load(_, _, _, _)
\* communication cost of o, by the layers that have one
CommLoad(st, o, ph, s) ==
  LET x == Top(st) IN
  IF x.k = "raw" THEN 0
  ELSE CommLoad(Front(st), o, ph, s) +
    (IF x.k # "wmsg" THEN 0 ELSE
     LET In(c) == c.one /\ c.off /\ c.t = o
         Out(c) == c.one /\ c.off /\ c.t # o /\ c.f = o
     IN Max(Cost(SelectSeq(Comm(ph), In), x.m, x.b), Cost(SelectSeq(Comm(ph), Out), x.m, x.b)))
Load(st, o, ph, s) ==
  LET x == Top(st)
      base == Front(st)
      Past(n) == [i \in 1 .. Min(n, completed) |-> Load(base, o, -i, s)]
  IN
  CASE x.k = "raw" -> Recorded(o, ph, s)
    [] x.k = "naive" -> Load(base, o, Min(ph, -1), s)
    [] x.k = "median" -> IF ph < 0 THEN Load(base, o, ph, s) ELSE Median(Past(x.n))
    [] x.k = "many" -> IF ph < 0 THEN Load(base, o, ph, s) ELSE Sum([i \in 1 .. x.n |-> Load(base, o, x.n * ph + i - 1, s)])
    [] x.k = "sub" -> IF s = Whole THEN Sum([i \in 1 .. Len(x.s) |-> Load(base, o, ph, x.s[i])]) ELSE Load(base, o, ph, x.s[s + 1])
    [] x.k = "norm" ->
         IF s # Whole THEN Load(base, o, ph, s)
         ELSE LET q == [i \in 1 .. Subphases(base) |-> Load(base, o, ph, i - 1)] IN IF x.n = 0 THEN MaxOf(q) ELSE IF x.n = 1 THEN Sum(q) ELSE SumSq(q)
    [] x.k = "over" -> LET To(c) == c.off /\ c.t = o IN Load(base, o, ph, s) + Cost(SelectSeq(Comm(ph), To), x.m, x.b)
    [] x.k = "wmsg" -> Load(base, o, ph, s)
    [] x.k = "vol" -> x.a * Load(base, o, ph, s) + x.b * CommLoad(base, o, ph, s) + x.g
    [] x.k = "coll" -> IF coll[o] \in DOMAIN kept THEN Load(kept[coll[o]], o, ph, s) ELSE Load(base, o, ph, s)
    [] x.k = "reas" -> IF o \in DOMAIN come THEN Of(come[o].a, s) ELSE Load(base, o, ph, s)
    [] x.k = "line" -> Load(base, o, ph, s)   \* of the past; see Line
RECURSIVE Raw(_, _, _)
Raw(st, o, ph) ==
  LET x == Top(st) IN
  IF x.k = "raw" THEN Recorded(o, ph, Whole)
  ELSE IF x.k = "coll" /\ coll[o] \in DOMAIN kept THEN Raw(kept[coll[o]], o, ph)
  ELSE IF x.k = "reas" /\ o \in DOMAIN come THEN come[o].b.w
  ELSE Raw(Front(st), o, ph)
\* least squares over the past phases, numbered -n .. -1; v is rounded
Line(q, at, v) ==
  LET n == Len(q)
      sx == Sum([i \in 1 .. n |-> 0 - i])        \* q[i] is the load i phases ago
      sy == Sum(q)
      sxx == Sum([i \in 1 .. n |-> i * i])
      sxy == Sum([i \in 1 .. n |-> (0 - i) * q[i]])
      den == n * sxx - sx * sx
      num == sy * den + (n * sxy - sx * sy) * (n * at - sx)
      dif == v * n * den - num
  IN den # 0 /\ dif <= n * den /\ dif >= 0 - n * den
RECURSIVE Need(_, _)
Need(st, back) ==
  LET x == Top(st) IN
  IF x.k = "raw" THEN back
  ELSE IF x.k = "naive" THEN Need(Front(st), Max(1, back))
  ELSE IF x.k \in {"median", "line"} THEN Need(Front(st), Max(x.n, back))
  ELSE IF x.k = "coll" THEN MaxOf(<<Need(Front(st), back)>> \o [i \in 1 .. 3 |-> IF i \in DOMAIN kept THEN Need(kept[i], back) ELSE 0])
  ELSE Need(Front(st), back)
RECURSIVE Objects(_)
Objects(st) == LET x == Top(st) IN IF x.k = "raw" THEN Present ELSE IF x.k = "reas" THEN (Objects(Front(st)) \ {x.s[i] : i \in 1 .. Len(x.s)}) \cup DOMAIN come ELSE Objects(Front(st))

Object(o, c) == coll' = Put(coll, o, c) /\ UNCHANGED <<loads, comms, kept, stack, come, completed>>
Record(p, o, w, s) == loads' = Put(loads, <<p, o>>, [w |-> w, s |-> s]) /\ UNCHANGED <<comms, coll, kept, stack, come, completed>>
Message(c) == comms' = Append(comms, c) /\ UNCHANGED <<loads, coll, kept, stack, come, completed>>
Layer(x) == stack' = Append(stack, x) /\ UNCHANGED <<loads, comms, coll, kept, come, completed>>
Keep(c) == kept' = Put(kept, c, stack) /\ stack' = <<>> /\ UNCHANGED <<loads, comms, coll, come, completed>>
Arrive(o, a, b) == come' = Put(come, o, [a |-> [w |-> Head(a), s |-> Tail(a)], b |-> [w |-> Head(b), s |-> Tail(b)]]) /\ UNCHANGED <<loads, comms, coll, kept, stack, completed>>
Update(p) == completed' = p + 1 /\ UNCHANGED <<loads, comms, coll, kept, stack, come>>
Drop == stack' = <<>> /\ kept' = <<>> /\ come' = <<>> /\ UNCHANGED <<loads, comms, coll, completed>>
Predicted(o, ph, s, v, exact) ==
  IF Top(stack).k = "line" /\ ph >= 0 THEN Line([i \in 1 .. Min(Top(stack).n, completed) |-> Load(Front(stack), o, -i, s)], ph, v)
  ELSE LET w == Load(stack, o, ph, s) IN
    IF Top(stack).k = "norm" /\ Top(stack).n = 2 /\ s = Whole THEN (v = 0 \/ (v - 1) * (v - 1) <= w) /\ w <= (v + 1) * (v + 1)
    ELSE exact /\ v = w
CommPredicted(o, ph, s, v, exact) == exact /\ v = CommLoad(stack, o, ph, s)
RawLoad(o, ph, v) == v = Raw(stack, o, ph)
Seen(v, n, cnt, phases, subs) ==
  /\ {v[i] : i \in 1 .. Len(v)} = Objects(stack) /\ n = Cardinality(Objects(stack)) /\ cnt = n
  /\ phases = completed /\ subs = Subphases(stack)
Needed(back, v) == v = Need(stack, back)
=============================================================================
