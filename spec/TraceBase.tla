----------------------------- MODULE TraceBase -----------------------------
(* Frame shared by all trace specifications.  The file named by the          *)
(* environment variable TRACES holds one recorded execution per line:         *)
(*   [c |-> case number, n |-> number of nodes, p |-> parameters,             *)
(*    ev |-> sequence of events, each a record with field e = event name]     *)
(* All executions of the file are validated in one TLC run: each one is an    *)
(* initial state (variable t).  A trace is accepted when some behaviour of    *)
(* the specification consumes all of its events.  Acceptance is collected in  *)
(* TLC registers (run with -workers 1) so unlogged, nondeterministic steps    *)
(* are allowed.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES t, l
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
NT == Len(Traces)
Tr == Traces[t].ev
N == Traces[t].n
Nodes == 0 .. (Traces[t].n - 1)
P == Traces[t].p
Ev == Tr[l]
TBInit == t \in 1 .. NT /\ l = 1
Is(e) == l <= Len(Tr) /\ Tr[l].e = e /\ l' = l + 1 /\ t' = t
Silent == l <= Len(Tr) /\ l' = l /\ t' = t
ASSUME \A i \in 1 .. NT : TLCSet(i, 1)
\* CONSTRAINT: remember how far each trace got
Progress == IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE
\* POSTCONDITION: every trace was consumed completely
Accepted ==
  \A i \in 1 .. NT :
    \/ TLCGet(i) = Len(Traces[i].ev) + 1
    \/ PrintT(<<"REJECTED", Traces[i].c, TLCGet(i)>>)
=============================================================================
