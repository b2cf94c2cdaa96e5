---------------------------- MODULE ElementLoad ----------------------------
(* The load-balancing data of one object.                                     *)
(* rec[p] = [sub, total, comm]: for phase p, the time measured per subphase,  *)
(* the time of the phase and the communication: a set of [k, s, b, m]         *)
(* (edge k in subphase s: b bytes in m messages).                             *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES rec, ph, sph, running
lvars == <<rec, ph, sph, running>>
Empty == [sub |-> <<>>, total |-> 0, comm |-> {}]
Rec(p) == IF p \in DOMAIN rec THEN rec[p] ELSE Empty
Set(p, r) == rec' = [x \in DOMAIN rec \cup {p} |-> IF x = p THEN r ELSE rec[x]]
LInit == rec = [p \in {} |-> 0] /\ ph = 0 /\ sph = 0 /\ running = FALSE
AddAt(q, i, v) == [j \in 1 .. (IF Len(q) < i THEN i ELSE Len(q)) |-> (IF j <= Len(q) THEN q[j] ELSE 0) + (IF j = i THEN v ELSE 0)]
Start == running' = TRUE /\ UNCHANGED <<rec, ph, sph>>
Stop(v) == running /\ running' = FALSE /\ Set(ph, [Rec(ph) EXCEPT !.sub = AddAt(@, sph + 1, v), !.total = @ + v]) /\ UNCHANGED <<ph, sph>>
SetTime(v, q) == Set(ph, [Rec(ph) EXCEPT !.sub = q, !.total = v]) /\ UNCHANGED <<ph, sph, running>>
Comm(k, b) ==
  LET C == Rec(ph).comm
      old == {x \in C : x.k = k /\ x.s = sph}
      new == IF old = {} THEN [k |-> k, s |-> sph, b |-> b, m |-> 1] ELSE LET x == CHOOSE y \in old : TRUE IN [x EXCEPT !.b = @ + b, !.m = @ + 1]
  IN Set(ph, [Rec(ph) EXCEPT !.comm = (C \ old) \cup {new}]) /\ UNCHANGED <<ph, sph, running>>
Subphase(s) == sph' = s /\ UNCHANGED <<rec, ph, running>>
NextPhase(k) == ph' = ph + k /\ UNCHANGED <<rec, sph, running>>
Release(p) == rec' = [x \in DOMAIN rec \ {p} |-> rec[x]] /\ UNCHANGED <<ph, sph, running>>
RECURSIVE SumB(_)
SumB(C) == IF C = {} THEN 0 ELSE LET x == CHOOSE y \in C : TRUE IN x.b + SumB(C \ {x})
RECURSIVE SumM(_)
SumM(C) == IF C = {} THEN 0 ELSE LET x == CHOOSE y \in C : TRUE IN x.m + SumM(C \ {x})
=============================================================================
