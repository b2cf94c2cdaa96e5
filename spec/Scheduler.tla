----------------------------- MODULE Scheduler -----------------------------
(* The scheduler of each node: its queue of work ordered by priority, nested  *)
(* loops over it, and the functions triggered on its events.                  *)
(* pend[r]    work enqueued by the program and not yet run: [id, p]           *)
(* msg        messages with a priority: [id, to, p], not yet handled          *)
(* ctx[r]     what the node is in the middle of, innermost last:              *)
(*              unit, msg      a piece of work (x: its id)                    *)
(*              loop           a scheduler loop, st "in" or "stop": its       *)
(*                             condition has become false                     *)
(*              call           a call of runSchedulerWhile; st: loops done    *)
(*              ep             a call of runInEpochRooted                     *)
(*              fire           triggers of event x; todo: still to run; on    *)
(* idle[r], idleT[r]  "y", "n" or "u" (not known yet): nothing to do, nothing *)
(*              to do but termination detection                               *)
(* regs[r], once[r]   triggers registered, per event, in order                *)
(* runs[r]    pieces of work since the network was last polled                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pend, msg, ctx, idle, idleT, regs, once, runs
schvars == <<pend, msg, ctx, idle, idleT, regs, once, runs>>
Events == 0 .. 6
BeginIdle == 0  EndIdle == 1  BeginIdleT == 2  EndIdleT == 3  BeginLoop == 4  EndLoop == 5  Pending == 6
SchInit(nodes) ==
  /\ pend = [r \in nodes |-> {}] /\ msg = {} /\ ctx = [r \in nodes |-> <<>>]
  /\ idle = [r \in nodes |-> "u"] /\ idleT = [r \in nodes |-> "u"] /\ runs = [r \in nodes |-> 0]
  /\ regs = [r \in nodes |-> [e \in Events |-> <<e>>]] /\ once = [r \in nodes |-> [e \in Events |-> <<>>]]
Top(r) == IF ctx[r] = <<>> THEN [k |-> "none", x |-> 0, st |-> "", todo |-> <<>>] ELSE ctx[r][Len(ctx[r])]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Below(r) == IF Len(ctx[r]) < 2 THEN [k |-> "none", x |-> 0, st |-> "", todo |-> <<>>] ELSE ctx[r][Len(ctx[r]) - 1]
Frame(k, x, st) == [k |-> k, x |-> x, st |-> st, todo |-> <<>>]
Push(r, f) == ctx' = [ctx EXCEPT ![r] = Append(@, f)]
Turn(r, st) == ctx' = [ctx EXCEPT ![r] = [@ EXCEPT ![Len(@)].st = st]]
Depth(r) == Cardinality({i \in 1 .. Len(ctx[r]) : ctx[r][i].k = "loop"})
Enqueue(r, id, p) == pend' = [pend EXCEPT ![r] = @ \cup {[id |-> id, p |-> p]}] /\ UNCHANGED <<msg, ctx, idle, idleT, regs, once, runs>>
\* a node picks work only inside a loop whose condition holds, and most urgent first
Ready(r, p, k) ==
  /\ Top(r).k = "loop" /\ Top(r).st = "in" /\ idle[r] # "y" /\ idleT[r] # "y"
  /\ \A u \in pend[r] : u.p <= p
  /\ k > 0 => runs[r] < k
Run(r, id, k) ==
  \E u \in pend[r] :
    /\ u.id = id /\ (Ready(r, u.p, k) = TRUE)
    /\ pend' = [pend EXCEPT ![r] = @ \ {u}] /\ Push(r, Frame("unit", id, "")) /\ runs' = [runs EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<msg, idle, idleT, regs, once>>
Handle(r, id, p, k) ==
  \E m \in msg :
    /\ m.id = id /\ m.to = r /\ m.p = p /\ (Ready(r, p, k) = TRUE)
    /\ msg' = msg \ {m} /\ Push(r, Frame("msg", id, "")) /\ runs' = [runs EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<pend, idle, idleT, regs, once>>
Over(r, kind, id) == Top(r).k = kind /\ Top(r).x = id /\ ctx' = [ctx EXCEPT ![r] = Pop(@)] /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
Post(to, id, p) == msg' = msg \cup {[id |-> id, to |-> to, p |-> p]} /\ UNCHANGED <<pend, ctx, idle, idleT, regs, once, runs>>
Poll(r) == runs' = [runs EXCEPT ![r] = 0] /\ UNCHANGED <<pend, msg, ctx, idle, idleT, regs, once>>
\* polls are no longer seen
Deaf(r) == runs' = [runs EXCEPT ![r] = -1000000] /\ UNCHANGED <<pend, msg, ctx, idle, idleT, regs, once>>
Call(r, d) == d = Depth(r) /\ Push(r, Frame("call", 0, "0")) /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
Stop(r) == Top(r).k = "loop" /\ Top(r).st = "in" /\ Below(r).k = "call" /\ Turn(r, "stop") /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
Left(r, d) == Top(r).k = "call" /\ Top(r).st = "1" /\ d = Depth(r) /\ ctx' = [ctx EXCEPT ![r] = Pop(@)] /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
InEpoch(r) == Push(r, Frame("ep", 0, "0")) /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
Body(r) == Top(r).k = "ep" /\ Top(r).st = "p" /\ Turn(r, "b") /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
EpochOver(r) == Top(r).k = "ep" /\ Top(r).st = "1" /\ ctx' = [ctx EXCEPT ![r] = Pop(@)] /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
Register(r, e, k, o) ==
  /\ IF o THEN once' = [once EXCEPT ![r][e] = Append(@, k)] /\ UNCHANGED regs
          ELSE regs' = [regs EXCEPT ![r][e] = Append(@, k)] /\ UNCHANGED once
  /\ UNCHANGED <<pend, msg, ctx, idle, idleT, runs>>
\* when an event may occur, and what it does to the loops
May(r, e) ==
  LET f == Top(r) IN
  CASE e = BeginIdle -> f.k = "loop" /\ f.st = "in" /\ pend[r] = {} /\ idle[r] # "y"
    [] e = EndIdle -> f.k = "loop" /\ idle[r] # "n"
    [] e = BeginIdleT -> f.k = "loop" /\ f.st = "in" /\ pend[r] = {} /\ idleT[r] # "y"
    [] e = EndIdleT -> f.k = "loop" /\ f.st = "in" /\ idleT[r] # "n" /\ idle[r] # "y"
    [] e = BeginLoop -> (f.k = "call" => f.st = "0") /\ (f.k = "ep" => f.st = "b")
    [] e = EndLoop -> f.k = "loop" /\ idle[r] # "y" /\ (Below(r).k = "call" => f.st = "stop")
    [] e = Pending -> f.k # "loop" /\ (f.k = "ep" => f.st = "0")
Idle(r, e) ==
  /\ idle' = [idle EXCEPT ![r] = IF e = BeginIdle THEN "y" ELSE IF e = EndIdle THEN "n" ELSE @]
  /\ idleT' = [idleT EXCEPT ![r] = IF e = BeginIdleT THEN "y" ELSE IF e = EndIdleT THEN "n" ELSE @]
Entered(r, e) == IF e = BeginLoop THEN Append(ctx[r], Frame("loop", 0, "in")) ELSE ctx[r]
\* triggers run once per event, those registered for every time before those for once, in order
Fire(r, e, k, d) ==
  LET f == Top(r) IN
  IF f.k = "fire" /\ f.st = "off"
  THEN /\ f.x = e /\ f.todo # <<>> /\ Head(f.todo) = k /\ d = Depth(r)
       /\ ctx' = [ctx EXCEPT ![r] = [@ EXCEPT ![Len(@)] = [f EXCEPT !.todo = Tail(@), !.st = "on"]]]
       /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
  ELSE /\ (May(r, e) = TRUE) /\ Idle(r, e)
       /\ LET all == regs[r][e] \o once[r][e] c == Entered(r, e) IN
          /\ Head(all) = k
          /\ d = Cardinality({i \in 1 .. Len(c) : c[i].k = "loop"})
          /\ ctx' = [ctx EXCEPT ![r] = Append(c, [k |-> "fire", x |-> e, st |-> "on", todo |-> Tail(all)])]
          /\ once' = [once EXCEPT ![r][e] = <<>>]
       /\ UNCHANGED <<pend, msg, regs, runs>>
\* the stack after all triggers of e have run
After(c, e) ==
  CASE e = EndLoop -> LET o == Pop(c) IN
         IF o # <<>> /\ o[Len(o)].k \in {"call", "ep"} THEN [o EXCEPT ![Len(o)].st = "1"] ELSE o
    [] e = Pending /\ c # <<>> /\ c[Len(c)].k = "ep" /\ c[Len(c)].st = "0" -> [c EXCEPT ![Len(c)].st = "p"]
    [] OTHER -> c
Fired(r) ==
  LET f == Top(r) IN
  /\ f.k = "fire" /\ f.st = "on"
  /\ ctx' = [ctx EXCEPT ![r] = IF f.todo = <<>> THEN After(Pop(@), f.x) ELSE [@ EXCEPT ![Len(@)].st = "off"]]
  /\ UNCHANGED <<pend, msg, idle, idleT, regs, once, runs>>
\* the priority of a message: five levels of three bits, the first the most significant
Pow8(n) == CASE n = 0 -> 1 [] n = 1 -> 8 [] n = 2 -> 64 [] n = 3 -> 512 [] OTHER -> 4096
Digit(v, l) == (v \div Pow8(4 - l)) % 8
Level(l, inc) == IF inc /\ l + 1 < 5 THEN l + 1 ELSE l
NewDigit(v, lev, p, l) == IF l < lev THEN Digit(v, l) ELSE IF l = lev THEN p ELSE IF p = 7 THEN 7 ELSE 0
Prio(v, lev, p) == LET D(l) == NewDigit(v, lev, p, l) * Pow8(4 - l) IN (v \div 32768) * 32768 + D(0) + D(1) + D(2) + D(3) + D(4)
Derived(ov, ol, p, inc, nv, nl) == nl = Level(ol, inc) /\ nv = Prio(ov, nl, p) /\ UNCHANGED schvars
Finished(r) == pend[r] = {}
=============================================================================
