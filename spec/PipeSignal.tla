----------------------------- MODULE PipeSignal -----------------------------
(* Signals delivered to the listeners of a pipe.                              *)
(* lis: [l, p, pers, n]: listener l of pipe p, n deliveries left              *)
(* sig: the delivery in progress <<p, d, listeners still to be triggered,     *)
(*      listeners to be destroyed>> or <<>>                                   *)
EXTENDS Integers, FiniteSets
VARIABLES lis, sig, cnt, st
pvars == <<lis, sig, cnt, st>>
SInit == lis = {} /\ sig = <<>> /\ cnt = [p \in {} |-> 0] /\ st = [p \in {} |-> 0]
Of(p) == {x \in lis : x.p = p}
Listen(i, p, pers, n) == sig = <<>> /\ (\A x \in lis : x.l # i) /\ lis' = lis \cup {[l |-> i, p |-> p, pers |-> pers, n |-> n]} /\ UNCHANGED <<sig, cnt, st>>
Signal(p, d) == sig = <<>> /\ sig' = <<p, d, {x.l : x \in Of(p)}, {}>> /\ UNCHANGED <<lis, cnt, st>>
Trigger(i, p, d) ==
  /\ sig # <<>> /\ sig[1] = p /\ sig[2] = d /\ i \in sig[3]
  /\ LET x == CHOOSE y \in lis : y.l = i
         over == ~x.pers /\ x.n = 1 IN
     /\ lis' = (lis \ {x}) \cup (IF over THEN {} ELSE {[x EXCEPT !.n = IF x.pers THEN @ ELSE @ - 1]})
     /\ sig' = <<p, d, sig[3] \ {i}, IF over THEN sig[4] \cup {i} ELSE sig[4]>>
  /\ UNCHANGED <<cnt, st>>
Gone(i) == sig # <<>> /\ i \in sig[4] /\ sig' = <<sig[1], sig[2], sig[3], sig[4] \ {i}>> /\ UNCHANGED <<lis, cnt, st>>
SignalEnd(p) == sig # <<>> /\ sig[1] = p /\ sig[3] = {} /\ sig[4] = {} /\ sig' = <<>> /\ UNCHANGED <<lis, cnt, st>>
ClearPipe(p) == sig = <<>> /\ sig' = <<p, 0, {}, {x.l : x \in Of(p)}>> /\ lis' = lis \ Of(p) /\ UNCHANGED <<cnt, st>>
\* an automatic pipe: k signals for one listener; finished after exactly k
State(p, k) == st' = [x \in DOMAIN st \cup {p} |-> IF x = p THEN <<k, k>> ELSE st[x]] /\ UNCHANGED <<lis, sig, cnt>>
StateSignal(p) == st' = [st EXCEPT ![p] = <<@[1], @[2] - 1>>] /\ UNCHANGED <<lis, sig, cnt>>
SetCount(p, v) == cnt' = [x \in DOMAIN cnt \cup {p} |-> IF x = p THEN v ELSE cnt[x]] /\ UNCHANGED <<lis, sig, st>>
=============================================================================
