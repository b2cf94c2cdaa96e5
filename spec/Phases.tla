------------------------------- MODULE Phases -------------------------------
(* Phases and the hooks around them.  nextPhaseCollective: when all nodes     *)
(* have called it, the data-collection hooks run (all in one epoch), then     *)
(* those for the end of the phase, those after migrations, the phase number   *)
(* goes up, and the hooks for its start run; it returns when all nodes have   *)
(* got that far.  Each set runs rooted, collective, then unsynchronised       *)
(* hooks, each in order of registration; a rooted hook is over when all work  *)
(* it caused is done, a collective one when all nodes have run it and all     *)
(* that work is done.                                                         *)
(* hooks[r]  registered on node r, in order: [h, kind, type]                   *)
(* todo[r]   what node r has still to do in this call: hooks, waits, "inc"     *)
(* rnd[r]    calls made by r;  phase[r];  cur[r] the hook running: its group   *)
(* left[g]   hooks running and messages under way caused by group g            *)
(* msg[m]    [g, n]: group and copies not yet handled completely               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES hooks, todo, rnd, phase, cur, left, msg
pvars == <<hooks, todo, rnd, phase, cur, left, msg>>
Start == 0  EndPh == 1  Data == 2  Post == 3
Rooted == 0  Coll == 1  Uns == 2
NoGroup == <<0, 0>>
PInit(nodes) ==
  /\ hooks = [r \in nodes |-> <<>>] /\ todo = [r \in nodes |-> <<>>] /\ rnd = [r \in nodes |-> 0]
  /\ phase = [r \in nodes |-> 0] /\ cur = [r \in nodes |-> NoGroup] /\ left = <<>> /\ msg = <<>>
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
More(g, n) == With(left, g, At(left, g, 0) + n)
Register(r, h, kind, type) == hooks' = [hooks EXCEPT ![r] = Append(@, [h |-> h, kind |-> kind, type |-> type])] /\ UNCHANGED <<todo, rnd, phase, cur, left, msg>>
Unregister(r, h) ==
  /\ \E i \in 1 .. Len(hooks[r]) : hooks[r][i].h = h
  /\ hooks' = [hooks EXCEPT ![r] = SelectSeq(@, LAMBDA x : x.h # h)] /\ UNCHANGED <<todo, rnd, phase, cur, left, msg>>
\* what a call consists of
Item(k, g, all) == [k |-> k, g |-> g, all |-> all]
Of(r, kind, type) == SelectSeq(hooks[r], LAMBDA x : x.kind = kind /\ x.type = type)
RECURSIVE Each(_, _, _)
Each(q, s, kind) ==
  IF s = <<>> THEN <<>>
  ELSE LET g == <<q, Head(s).h>> IN
       <<Item("hook", g, FALSE)>> \o (IF kind = Uns THEN <<>> ELSE <<Item("wait", g, kind = Coll)>>) \o Each(q, Tail(s), kind)
Set(r, q, type) == Each(q, Of(r, Rooted, type), Rooted) \o Each(q, Of(r, Coll, type), Coll) \o Each(q, Of(r, Uns, type), Uns)
Together(r, q) ==
  LET s == Of(r, Rooted, Data) \o Of(r, Coll, Data) \o Of(r, Uns, Data) IN
  [i \in 1 .. Len(s) |-> [k |-> "hook", g |-> <<q, -1, s[i].h>>, all |-> FALSE]] \o <<Item("wait", <<q, -1>>, TRUE)>>
Call(r, type) ==
  LET q == rnd[r] + 1 IN
  /\ todo[r] = <<>> /\ rnd' = [rnd EXCEPT ![r] = q]
  /\ todo' = [todo EXCEPT ![r] =
       IF type >= 0 THEN Set(r, q, type)
       ELSE <<Item("all", <<q, 0>>, TRUE)>> \o Together(r, q) \o Set(r, q, EndPh) \o Set(r, q, Post) \o <<Item("inc", <<q, 0>>, TRUE)>> \o Set(r, q, Start) \o <<Item("last", <<q, 0>>, TRUE)>>]
  /\ UNCHANGED <<hooks, phase, cur, left, msg>>
\* groups: the data-collection hooks of a call make up one
Group(g) == IF Len(g) = 3 THEN <<g[1], g[2]>> ELSE g
Has(n, g) == \E i \in 1 .. Len(todo[n]) : todo[n][i].k = "hook" /\ Group(todo[n][i].g) = g
Busy(n) == \E i \in 1 .. Len(todo[n]) : todo[n][i].k = "hook"
Nodes_ == DOMAIN rnd
Met(x) ==
  LET q == x.g[1] IN
  CASE x.k = "wait" -> At(left, x.g, 0) = 0 /\ (x.all => \A n \in Nodes_ : rnd[n] >= q /\ ~Has(n, x.g))
    [] x.k = "all" -> \A n \in Nodes_ : rnd[n] >= q
    [] x.k = "last" -> \A n \in Nodes_ : rnd[n] > q \/ (rnd[n] = q /\ ~Busy(n))
    [] x.k = "inc" -> TRUE
    [] OTHER -> FALSE
\* node r gets past a wait, or to the next phase
Pass(r) ==
  /\ todo[r] # <<>> /\ cur[r] = NoGroup /\ (Met(Head(todo[r])) = TRUE)
  /\ todo' = [todo EXCEPT ![r] = Tail(@)]
  /\ phase' = IF Head(todo[r]).k = "inc" THEN [phase EXCEPT ![r] = @ + 1] ELSE phase
  /\ UNCHANGED <<hooks, rnd, cur, left, msg>>
Hook(r, h, p) ==
  /\ todo[r] # <<>> /\ cur[r] = NoGroup
  /\ LET x == Head(todo[r]) IN
     /\ x.k = "hook" /\ x.g[Len(x.g)] = h /\ p = phase[r]
     /\ cur' = [cur EXCEPT ![r] = Group(x.g)] /\ left' = More(Group(x.g), 1)
  /\ todo' = [todo EXCEPT ![r] = Tail(@)]
  /\ UNCHANGED <<hooks, rnd, phase, msg>>
HookOver(r) == cur[r] # NoGroup /\ cur' = [cur EXCEPT ![r] = NoGroup] /\ left' = More(cur[r], -1) /\ UNCHANGED <<hooks, todo, rnd, phase, msg>>
Return(r, p) == todo[r] = <<>> /\ cur[r] = NoGroup /\ p = phase[r] /\ UNCHANGED pvars
\* of: a hook running on r, or a message being handled
Send(r, m, of, n) ==
  LET g == IF of > 0 THEN cur[r] ELSE msg[-of].g IN
  msg' = With(msg, m, [g |-> g, n |-> n]) /\ left' = More(g, n) /\ UNCHANGED <<hooks, todo, rnd, phase, cur>>
Bcast(m, n) == msg' = [msg EXCEPT ![m].n = @ + n - 1] /\ left' = More(msg[m].g, n - 1) /\ UNCHANGED <<hooks, todo, rnd, phase, cur>>
Handle(m) == m \in DOMAIN msg /\ msg[m].n > 0 /\ UNCHANGED pvars
Handled(m) == msg[m].n > 0 /\ msg' = [msg EXCEPT ![m].n = @ - 1] /\ left' = More(msg[m].g, -1) /\ UNCHANGED <<hooks, todo, rnd, phase, cur>>
AllOver == \A g \in DOMAIN left : left[g] = 0
=============================================================================
