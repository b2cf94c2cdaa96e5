----------------------------- MODULE Lifetimes -----------------------------
(* The lives of a runtime in one set of processes.  The processes of a        *)
(* communicator start an instance together, work in it, and end it; later,    *)
(* the same processes may start another one, with other processes and in      *)
(* another order.  An instance numbers its processes as the communicator     *)
(* does, gets nothing of the work of other instances, and ends on no process   *)
(* before all of its processes are there to end it and all of its work is      *)
(* done.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES in, members, ending, posted, running, got
lifevars == <<in, members, ending, posted, running, got>>
None == 0
LInit(R) ==
  /\ in = [r \in R |-> None] /\ members = <<>> /\ ending = {} /\ posted = <<>> /\ running = {} /\ got = {}
Procs == DOMAIN in
Range(s) == {s[i] : i \in 1 .. Len(s)}
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* of: the processes of the communicator in its order
Up(r, i, node, n, of, phase) ==
  /\ in[r] = None /\ i # None
  /\ i \in DOMAIN members => members[i] = of
  /\ n = Len(of) /\ node + 1 \in 1 .. n /\ of[node + 1] = r /\ phase = 0
  /\ in' = [in EXCEPT ![r] = i] /\ members' = Put(members, i, of)
  /\ UNCHANGED <<ending, posted, running, got>>
\* some work m that is to be done on n processes of the instance
Post(r, i, m, n) ==
  /\ in[r] = i /\ m \notin DOMAIN posted /\ n >= 1
  /\ posted' = Put(posted, m, [i |-> i, n |-> n])
  /\ UNCHANGED <<in, members, ending, running, got>>
Begin(r, m, i) ==
  /\ in[r] = i /\ m \in DOMAIN posted /\ posted[m].i = i /\ posted[m].n > 0 /\ <<r, m>> \notin got
  /\ posted' = [posted EXCEPT ![m].n = @ - 1] /\ running' = running \cup {<<r, m>>} /\ got' = got \cup {<<r, m>>}
  /\ UNCHANGED <<in, members, ending>>
End(r, m) == <<r, m>> \in running /\ running' = running \ {<<r, m>>} /\ UNCHANGED <<in, members, ending, posted, got>>
Finish(r, i) == in[r] = i /\ <<r, i>> \notin ending /\ ending' = ending \cup {<<r, i>>} /\ UNCHANGED <<in, members, posted, running, got>>
Idle(i) ==
  /\ \A m \in DOMAIN posted : posted[m].i = i => posted[m].n = 0
  /\ \A x \in running : posted[x[2]].i # i
Down(r, i) ==
  /\ in[r] = i /\ (\A q \in Range(members[i]) : <<q, i>> \in ending) /\ Idle(i)
  /\ in' = [in EXCEPT ![r] = None]
  /\ UNCHANGED <<members, ending, posted, running, got>>
AllDown(r) == in[r] = None
=============================================================================
