------------------------------ MODULE RemoteMem ------------------------------
(* Memory behind one-sided handles. A block is named by a handle and its owner *)
(* (a node, an entry of a node's set, or a collection element); it keeps its   *)
(* contents wherever its owner lives.                                          *)
(* mem[<<h, o>>]  the cells of a block (-1: never written)                      *)
(* crit[<<h, o>>] the actor in a critical section over the block                *)
(* fops           fetch-and-op calls of the current round, in no known order    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES mem, crit, fops
rvars == <<mem, crit, fops>>
RInit == mem = <<>> /\ crit = <<>> /\ fops = {}
Range(off, v) == off + 1 .. off + Len(v)
Part(b, off, n) == SubSeq(b, off + 1, off + n)
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Op(op, x, y) == CASE op = "plus" -> x + y [] op = "max" -> IF x > y THEN x ELSE y [] OTHER -> IF x < y THEN x ELSE y
Over(b, off, v) == [i \in 1..Len(b) |-> IF i \in Range(off, v) THEN v[i - off] ELSE b[i]]
Make(b, n) == b \notin DOMAIN mem /\ mem' = With(mem, b, [i \in 1..n |-> -1]) /\ UNCHANGED <<crit, fops>>
Cut(b) == b \in DOMAIN mem /\ mem' = [x \in DOMAIN mem \ {b} |-> mem[x]] /\ UNCHANGED <<crit, fops>>
Count(b, n) == n = Len(mem[b]) /\ UNCHANGED rvars
Put(b, off, v) == /\ mem' = [mem EXCEPT ![b] = Over(@, off, v)] /\ UNCHANGED <<crit, fops>>
Get(b, off, v) == v = Part(mem[b], off, Len(v)) /\ UNCHANGED rvars
Acc(b, off, op, v) ==
  /\ mem' = [mem EXCEPT ![b] = [i \in 1..Len(@) |-> IF i \in Range(off, v) THEN Op(op, @[i], v[i - off]) ELSE @[i]]]
  /\ UNCHANGED <<crit, fops>>
\* the owner writes, or looks at, its whole block
Local(b, v) == Len(v) = Len(mem[b]) /\ mem' = [mem EXCEPT ![b] = v] /\ UNCHANGED <<crit, fops>>
See(b, v) == v = mem[b] /\ UNCHANGED rvars
\* while an exclusive lock is held nobody else is in the block
Enter(b, a, off, v) == b \notin DOMAIN crit /\ v = Part(mem[b], off, Len(v)) /\ crit' = With(crit, b, a) /\ UNCHANGED <<mem, fops>>
Leave(b, a, off, v) ==
  /\ b \in DOMAIN crit /\ crit[b] = a
  /\ crit' = [x \in DOMAIN crit \ {b} |-> crit[x]]
  /\ mem' = [mem EXCEPT ![b] = Over(@, off, v)] /\ UNCHANGED fops
\* id keeps equal calls apart
FetchOp(b, off, op, v, out, id, a) == fops' = fops \cup {[b |-> b, i |-> off + 1, op |-> op, v |-> v, out |-> out, id |-> id, a |-> a]} /\ UNCHANGED <<mem, crit>>
\* calls on one cell took place one after another, each seeing what the ones
\* before it left, and each actor's in its own order
RECURSIVE InOrder(_, _)
InOrder(s, x) ==
  s = {} \/
  LET now == {q \in s : q.out = x}
      idle == {q \in now : Op(q.op, x, q.v) = x}   \* these leave the cell as it is: they come first
      pick == IF idle # {} THEN {CHOOSE q \in idle : \A p \in idle : q.id <= p.id} ELSE now IN
  \E q \in pick : /\ \A p \in s : p.a = q.a => p.id >= q.id
                  /\ InOrder(s \ {q}, Op(q.op, x, q.v))
RECURSIVE Total(_, _)
Total(s, x) == IF s = {} THEN x ELSE LET q == CHOOSE p \in s : TRUE IN Total(s \ {q}, Op(q.op, x, q.v))
RoundOver ==
  /\ \A q \in fops : InOrder({p \in fops : p.b = q.b /\ p.i = q.i}, mem[q.b][q.i])
  /\ mem' = [b \in DOMAIN mem |-> IF \E q \in fops : q.b = b THEN [i \in 1..Len(mem[b]) |-> Total({p \in fops : p.b = b /\ p.i = i}, mem[b][i])] ELSE mem[b]]
  /\ crit = <<>> /\ fops' = {} /\ UNCHANGED crit
=============================================================================
