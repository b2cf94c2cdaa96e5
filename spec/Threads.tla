------------------------------ MODULE Threads ------------------------------
(* User-level threads.  th[t] = [left, st, id, i]: steps left, state          *)
(* (new, run, susp, done, dead), identifier (0: not known yet), next step.    *)
(* stack: who is running; the last one is current; the rest are waiting for   *)
(* the thread they started or resumed to suspend or finish.                   *)
EXTENDS Integers, Sequences
VARIABLES th, stack
thvars == <<th, stack>>
ThInit == th = [x \in {} |-> 0] /\ stack = <<>>
Cur == IF stack = <<>> THEN -1 ELSE stack[Len(stack)]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Push(i) == stack' = Append(stack, i)
Pop == stack' = SubSeq(stack, 1, Len(stack) - 1)
Spawn(i, k, run) == i \notin DOMAIN th /\ th' = Upd(th, i, [left |-> k, st |-> IF run THEN "run" ELSE "new", id |-> 0, i |-> 0])
                    /\ IF run THEN Push(i) ELSE UNCHANGED stack
Begin(i) == th[i].st = "new" /\ th' = [th EXCEPT ![i].st = "run"] /\ Push(i)
Known(i, id) == (th[i].id = 0 \/ th[i].id = id) /\ \A x \in DOMAIN th : x # i => th[x].id # id
Step(i, k, id) == Cur = i /\ th[i].st = "run" /\ th[i].i = k /\ th[i].left > 0 /\ Known(i, id)
                  /\ th' = [th EXCEPT ![i].id = id] /\ UNCHANGED stack
Suspend(i) == Cur = i /\ th[i].st = "run" /\ th' = [th EXCEPT ![i].st = "susp", ![i].i = @ + 1, ![i].left = @ - 1] /\ Pop
Back(i, id) == Cur = i /\ th[i].st = "back" /\ Known(i, id) /\ th' = [th EXCEPT ![i].st = "run"] /\ UNCHANGED stack
Finish(i) == Cur = i /\ th[i].st = "run" /\ th[i].left = 0 /\ th' = [th EXCEPT ![i].st = "done"] /\ Pop
\* resuming a finished thread does nothing
Resume(i) == IF th[i].st = "susp" THEN th' = [th EXCEPT ![i].st = "back"] /\ Push(i) ELSE th[i].st = "done" /\ UNCHANGED thvars
Ret(i, id, done, act) == Known(i, id) /\ th[i].st \in {"susp", "done"} /\ done = (th[i].st = "done") /\ act = (Cur # -1)
                         /\ th' = [th EXCEPT ![i].id = id] /\ UNCHANGED stack
Free(i) == th[i].st = "done" /\ th' = [th EXCEPT ![i].st = "dead"] /\ UNCHANGED stack
=============================================================================
