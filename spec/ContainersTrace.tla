--------------------------- MODULE ContainersTrace ---------------------------
EXTENDS TraceBase, Containers
VARIABLE cap
vars == <<cvars, cap, t, l>>
Init == TBInit /\ CInit /\ cap = 0
U == UNCHANGED cap
Bounded(x, a, b) == a <= x /\ x <= b
TCirc == Is("circ") /\ cap' = Ev.cap /\ UNCHANGED cvars
TPush == Is("push") /\ Len(q) < cap /\ Push(Ev.v) /\ U
TPop == Is("pop") /\ Pop(Ev.v) /\ U
TCst == Is("cst") /\ Ev.size = Len(q) /\ Ev.free = cap - Len(q) /\ Ev.full = (Len(q) = cap) /\ Ev.empty = (Len(q) = 0) /\ UNCHANGED cvars /\ U
TCtr == Is("ctr") /\ Ev.v = Ev.lo /\ c' = [lo |-> Ev.lo, hi |-> Ev.hi, v |-> Ev.lo] /\ UNCHANGED <<q, h>> /\ U
TInc == Is("inc") /\ Ev.v = Up(c) /\ Ev.ret = (IF Ev.post THEN c.v ELSE Up(c)) /\ c' = [c EXCEPT !.v = Up(c)] /\ UNCHANGED <<q, h>> /\ U
TDec == Is("dec") /\ Ev.v = Down(c) /\ Ev.ret = (IF Ev.post THEN c.v ELSE Down(c)) /\ c' = [c EXCEPT !.v = Down(c)] /\ UNCHANGED <<q, h>> /\ U
THist == Is("hist") /\ h' = [x \in {0, 1} |-> Hist(IF x = 0 THEN Ev.m0 ELSE Ev.m1)] /\ UNCHANGED <<q, c>> /\ U
THAdd == Is("hadd") /\ h' = [h EXCEPT ![Ev.h] = HAdd(h[Ev.h], Ev.v, Ev.n)] /\ UNCHANGED <<q, c>> /\ U
TMerge == Is("merge") /\ h' = [h EXCEPT ![Ev.h] = HMerge(h[Ev.h], h[Ev.o])] /\ UNCHANGED <<q, c>> /\ U
TEst == Is("est") /\ (h[Ev.h].exact => Ev.n = AtMost(h[Ev.h], Ev.v)) /\ UNCHANGED cvars /\ U
THst == Is("hst") /\ UNCHANGED cvars /\ U
  /\ LET r == h[Ev.h] D == DOMAIN r.vals IN
     /\ Ev.count = Count(r) /\ Ev.tot = Count(r) /\ Ev.cap = r.cap
     /\ Ev.cs = Len(Ev.vals) /\ Ev.cs <= r.cap
     /\ \A i \in 2 .. Len(Ev.vals) : Ev.vals[i - 1] <= Ev.vals[i]
     /\ D # {} => Ev.min = Min(D) /\ Ev.max = Max(D)
     /\ D # {} => \A i \in 1 .. Len(Ev.vals) : Min(D) * 100 <= Ev.vals[i] /\ Ev.vals[i] <= Max(D) * 100
     /\ r.exact => Ev.cs = Cardinality(D) /\ \A i \in 1 .. Len(Ev.vals) : Ev.vals[i] \in {x * 100 : x \in D}
TEnd == Is("end") /\ UNCHANGED cvars /\ U
Next == TCirc \/ TPush \/ TPop \/ TCst \/ TCtr \/ TInc \/ TDec \/ THist \/ THAdd \/ TMerge \/ TEst \/ THst \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
