------------------------------ MODULE AsyncOps ------------------------------
(* Asynchronous operations and events.  An operation is polled until it       *)
(* reports completion, then it is done once and never polled again; the       *)
(* thread blocked on it goes on after that; the epoch it was made in is not   *)
(* over before.  An action attached to an event runs once, on the node that   *)
(* attached it, when the event has occurred; a parent event occurs when all   *)
(* its events have.                                                           *)
(* op[id]   [rd, st, blk, m, n]: st live, true, done (running), over, resumed; *)
(*          m: the message whose handler made it; n: polls to come, -1 waits   *)
(*          for a flag, 0 flag set                                             *)
(* msg[m]   [rd, st];  evt[x] [r, hit, of];  act[a] [r, x, ran]                *)
(* left[rd] work of round rd not finished; shut[rd] nodes that added all       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES op, msg, evt, act, left, shut
avars == <<op, msg, evt, act, left, shut>>
AInit == op = <<>> /\ msg = <<>> /\ evt = <<>> /\ act = <<>> /\ left = <<>> /\ shut = <<>>
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
More(rd, n) == left' = With(left, rd, At(left, rd, 0) + n)
Send(m, rd) == msg' = With(msg, m, [rd |-> rd, st |-> "sent"]) /\ More(rd, 1) /\ UNCHANGED <<op, evt, act, shut>>
Recv(m, rd) == msg[m].st = "sent" /\ msg[m].rd = rd /\ msg' = [msg EXCEPT ![m].st = "run"] /\ UNCHANGED <<op, evt, act, left, shut>>
\* a handler ends when the operations it blocked on are over
Done(m) ==
  /\ msg[m].st = "run"
  /\ \A i \in DOMAIN op : op[i].m = m /\ op[i].blk => op[i].st = "resumed"
  /\ msg' = [msg EXCEPT ![m].st = "over"] /\ More(msg[m].rd, -1) /\ UNCHANGED <<op, evt, act, shut>>
Start(id, rd, blk, m, n) ==
  /\ id \notin DOMAIN op /\ op' = With(op, id, [rd |-> rd, st |-> "live", blk |-> blk, m |-> m, n |-> IF n = 0 THEN -1 ELSE n])
  /\ More(rd, 1) /\ UNCHANGED <<msg, evt, act, shut>>
Flag(id) == op[id].st = "live" /\ op[id].n = -1 /\ op' = [op EXCEPT ![id].n = 0] /\ UNCHANGED <<msg, evt, act, left, shut>>
Poll(id, v) ==
  /\ op[id].st = "live"
  /\ v = (op[id].n \in {0, 1})
  /\ op' = [op EXCEPT ![id].st = IF v THEN "true" ELSE @, ![id].n = IF @ > 0 THEN @ - 1 ELSE @] /\ UNCHANGED <<msg, evt, act, left, shut>>
Complete(id) == op[id].st = "true" /\ op' = [op EXCEPT ![id].st = "done"] /\ UNCHANGED <<msg, evt, act, left, shut>>
Completed(id) == op[id].st = "done" /\ op' = [op EXCEPT ![id].st = "over"] /\ More(op[id].rd, -1) /\ UNCHANGED <<msg, evt, act, shut>>
Resume(id) == op[id].st = "over" /\ op[id].blk /\ op' = [op EXCEPT ![id].st = "resumed"] /\ UNCHANGED <<msg, evt, act, left, shut>>
Shut(r, rd) == shut' = With(shut, rd, At(shut, rd, {}) \cup {r}) /\ UNCHANGED <<op, msg, evt, act, left>>
Over(rd, who) == At(left, rd, 0) = 0 /\ who \subseteq At(shut, rd, {}) /\ UNCHANGED avars
RECURSIVE Hit(_)
Hit(x) == evt[x].hit \/ (evt[x].par /\ \A i \in 1 .. Len(evt[x].of) : Hit(evt[x].of[i]))
New(r, x, par, of) == x \notin DOMAIN evt /\ evt' = With(evt, x, [r |-> r, hit |-> FALSE, par |-> par, of |-> of]) /\ UNCHANGED <<op, msg, act, left, shut>>
Shot(x) == ~evt[x].par /\ ~evt[x].hit /\ evt' = [evt EXCEPT ![x].hit = TRUE] /\ UNCHANGED <<op, msg, act, left, shut>>
Look(x, v) == v = evt[x].hit /\ UNCHANGED avars
Attach(r, x, a) == x \in DOMAIN evt /\ a \notin DOMAIN act /\ act' = With(act, a, [r |-> r, x |-> x, ran |-> FALSE]) /\ UNCHANGED <<op, msg, evt, left, shut>>
Act(r, a) == act[a].r = r /\ ~act[a].ran /\ (Hit(act[a].x) = TRUE) /\ act' = [act EXCEPT ![a].ran = TRUE] /\ UNCHANGED <<op, msg, evt, left, shut>>
AllOver ==
  /\ \A i \in DOMAIN op : op[i].st = IF op[i].blk THEN "resumed" ELSE "over"
  /\ \A m \in DOMAIN msg : msg[m].st = "over"
  /\ \A a \in DOMAIN act : Hit(act[a].x) => act[a].ran
=============================================================================
