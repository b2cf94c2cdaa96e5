---------------------------- MODULE Collections ----------------------------
(* What a collection of migratable objects owes its user.                    *)
(* el[x]    the state of object x = <<collection, index>>: where it is        *)
(*          (-1: in transit), how many messages it has handled, a digest of   *)
(*          them in order, its constructor argument, why it moves             *)
(* been[x]  the nodes on which x ever lived                                     *)
(* pend     deliveries owed: [m, x, rd]                                       *)
(* mv       migrations asked for: [x, to, rd]                                 *)
(* ins,del  insertions [x, at, rd] and removals [x, rd] asked for             *)
(* reds     reduction results owed: [k, i, r, els]                            *)
(* asks     location queries without an answer: [m, rd]                       *)
(* made[c]  the agreed contents of collection c; dead: [c, rd] destroyed      *)
(* rd numbers the rounds of the program: what belongs to a round is over when *)
(* the round's epoch has terminated.                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES el, been, pend, mv, ins, del, reds, asks, made, dead, ckpt
cvars == <<el, been, pend, mv, ins, del, reds, asks, made, dead, ckpt>>
Set(s) == {s[i] : i \in 1 .. Len(s)}
CInit == el = <<>> /\ been = <<>> /\ pend = {} /\ mv = {} /\ ins = {} /\ del = {} /\ reds = {} /\ asks = {} /\ made = <<>> /\ dead = {} /\ ckpt = <<>>
Objs(c) == {x \in DOMAIN el : x[1] = c}
At(c, r) == {x[2] : x \in {y \in Objs(c) : el[y].loc = r}}
Fresh(at, tag) == [loc |-> at, cnt |-> 0, h |-> 0, tag |-> tag, by |-> ""]
Put(f, S, V(_)) == [x \in DOMAIN f \cup S |-> IF x \in S THEN V(x) ELSE f[x]]
Cut(f, S) == [x \in DOMAIN f \ S |-> f[x]]

\* every node names the same contents: exp = <<index, home>> pairs
Make(c, exp, tag) ==
  /\ IF c \in DOMAIN made
       THEN made[c] = [exp |-> exp, tag |-> tag] /\ UNCHANGED <<el, been, made>>
       ELSE LET S == {<<c, e[1]>> : e \in exp}
                Where(x) == CHOOSE n \in {e[2] : e \in {z \in exp : z[1] = x[2]}} : TRUE
            IN /\ \A x \in DOMAIN made : x # c
               /\ el' = Put(el, S, LAMBDA x : Fresh(Where(x), tag))
               /\ been' = Put(been, S, LAMBDA x : {Where(x)})
               /\ made' = Put(made, {c}, LAMBDA x : [exp |-> exp, tag |-> tag])
  /\ UNCHANGED <<pend, mv, ins, del, reds, asks, dead, ckpt>>
Owe(m, S, rd) ==
  /\ \A p \in pend : p.m = m => p.x \notin S
  /\ pend' = pend \cup {[m |-> m, x |-> x, rd |-> rd] : x \in S}
  /\ UNCHANGED <<el, been, mv, ins, del, reds, asks, made, dead, ckpt>>
Send(m, c, i, rd) == <<c, i>> \in DOMAIN el /\ Owe(m, {<<c, i>>}, rd)
Bcast(m, c, rd) == c \in DOMAIN made /\ Owe(m, Objs(c), rd)
BcastHere(m, c, rd, r) == c \in DOMAIN made /\ Owe(m, {<<c, i>> : i \in At(c, r)}, rd)
Handle(m, c, i, r, cnt, h, tag) ==
  LET x == <<c, i>> IN
  /\ \E p \in pend : p.m = m /\ p.x = x /\ pend' = pend \ {p}
  /\ el[x].loc = r /\ el[x].cnt = cnt /\ el[x].h = h /\ el[x].tag = tag
  /\ el' = [el EXCEPT ![x] = [@ EXCEPT !.cnt = cnt + 1, !.h = (h * 31 + m) % 65521]]
  /\ UNCHANGED <<been, mv, ins, del, reds, asks, made, dead, ckpt>>
AskMove(c, i, r, to, rd) ==
  /\ el[<<c, i>>].loc = r
  /\ mv' = mv \cup {[x |-> <<c, i>>, to |-> to, rd |-> rd]}
  /\ UNCHANGED <<el, been, pend, ins, del, reds, asks, made, dead, ckpt>>
\* an object leaves a node because it asked to or because a balancer runs
Leave(c, i, r, cnt, h, lb) ==
  LET x == <<c, i>>
      asked == \E q \in mv : q.x = x IN
  /\ el[x].loc = r /\ el[x].cnt = cnt /\ el[x].h = h
  /\ asked \/ lb
  /\ el' = [el EXCEPT ![x] = [@ EXCEPT !.loc = -1, !.by = IF asked THEN "mv" ELSE "lb"]]
  /\ UNCHANGED <<been, pend, mv, ins, del, reds, asks, made, dead, ckpt>>
Arrive(c, i, r, cnt, h) ==
  LET x == <<c, i>> IN
  /\ el[x].loc = -1 /\ el[x].cnt = cnt /\ el[x].h = h
  /\ IF el[x].by = "mv" THEN \E q \in mv : q.x = x /\ q.to = r /\ mv' = mv \ {q} ELSE UNCHANGED mv
  /\ el' = [el EXCEPT ![x] = [@ EXCEPT !.loc = r, !.by = ""]]
  /\ been' = [been EXCEPT ![x] = @ \cup {r}]
  /\ UNCHANGED <<pend, ins, del, reds, asks, made, dead, ckpt>>
Balanced == \A x \in DOMAIN el : el[x].by # "lb"
AskInsert(c, i, at, rd) ==
  /\ \A x \in DOMAIN el : x = <<c, i>> => \E q \in del : q.x = x
  /\ ins' = ins \cup {[x |-> <<c, i>>, at |-> at, rd |-> rd]}
  /\ UNCHANGED <<el, been, pend, mv, del, reds, asks, made, dead, ckpt>>
AskRemove(c, i, rd) ==
  /\ del' = del \cup {[x |-> <<c, i>>, rd |-> rd]}
  /\ UNCHANGED <<el, been, pend, mv, ins, reds, asks, made, dead, ckpt>>
\* when a modification ends, every removal asked for has happened, and every
\* insertion (its objects exist from here on)
EndModification(c, rd, tag) ==
  LET new == {q \in ins : q.x[1] = c /\ q.rd <= rd}
      xs == {q.x : q \in new}
  IN /\ \A q \in del : q.x[1] = c /\ q.rd <= rd => q.x \notin DOMAIN el
     /\ \E at \in [xs -> {q.at : q \in new}] :   \* one of the requests for an index wins
          /\ \A x \in xs : \E q \in new : q.x = x /\ q.at = at[x]
          /\ el' = Put(el, xs, LAMBDA x : Fresh(at[x], tag))
          /\ been' = Put(been, xs, LAMBDA x : {at[x]} \cup (IF x \in DOMAIN been THEN been[x] ELSE {}))
     /\ ins' = ins \ new
     /\ del' = {q \in del : ~(q.x[1] = c /\ q.rd <= rd)}
     /\ UNCHANGED <<pend, mv, reds, asks, made, dead, ckpt>>
Gone(c, i, r, final) ==
  LET x == <<c, i>> IN
  /\ x \in DOMAIN el /\ el[x].loc = r
  /\ final \/ (\E q \in del : q.x = x) \/ (\E q \in dead : q.c = c)
  /\ \A p \in pend : p.x # x
  /\ el' = Cut(el, {x})
  /\ UNCHANGED <<been, pend, mv, ins, del, reds, asks, made, dead, ckpt>>
Kill(c, rd) == dead' = dead \cup {[c |-> c, rd |-> rd]} /\ UNCHANGED <<el, been, pend, mv, ins, del, reds, asks, made, ckpt>>
List(c, r, is) ==
  /\ At(c, r) \subseteq is
  /\ \A i \in is : i \in At(c, r) \/ (\E q \in ins : q.x = <<c, i>> /\ q.at = r)
  /\ UNCHANGED cvars
\* kind 0: to node tgt; 1: to object tgt; 2: to every object; 3: to every node
Reduce(k, c, kind, tgt, nodes) ==
  LET els == {x[2] : x \in Objs(c)}
      tos == CASE kind = 0 -> {<<-1, tgt>>} [] kind = 1 -> {<<tgt, -1>>} [] kind = 2 -> {<<i, -1>> : i \in els} [] OTHER -> {<<-1, n>> : n \in nodes}
  IN /\ \A q \in reds : q.k # k
     /\ reds' = reds \cup {[k |-> k, i |-> d[1], r |-> d[2], els |-> els] : d \in tos}
     /\ UNCHANGED <<el, been, pend, mv, ins, del, asks, made, dead, ckpt>>
Reduced(k, c, i, r, els, n) ==
  /\ \E q \in reds : q.k = k /\ q.i = i /\ (IF i < 0 THEN q.r = r ELSE el[<<c, i>>].loc = r) /\ q.els = els /\ Cardinality(els) = n /\ reds' = reds \ {q}
  /\ UNCHANGED <<el, been, pend, mv, ins, del, asks, made, dead, ckpt>>
Ask(m, rd) == asks' = asks \cup {[m |-> m, rd |-> rd]} /\ UNCHANGED <<el, been, pend, mv, ins, del, reds, made, dead, ckpt>>
\* the home's directory is exact; elsewhere a query may be answered from a cache
Answer(m, c, i, at, athome) ==
  /\ \E q \in asks : q.m = m /\ asks' = asks \ {q}
  /\ IF athome THEN el[<<c, i>>].loc = at ELSE at \in been[<<c, i>>]
  /\ UNCHANGED <<el, been, pend, mv, ins, del, reds, made, dead, ckpt>>
\* a checkpoint f of a collection at rest: every object, where it is and its state
Save(c, f) ==
  /\ c \in DOMAIN made
  /\ LET snap == [i \in {x[2] : x \in Objs(c)} |-> el[<<c, i>>]] IN
     IF f \in DOMAIN ckpt THEN ckpt[f] = snap /\ UNCHANGED ckpt ELSE ckpt' = Put(ckpt, {f}, LAMBDA x : snap)
  /\ UNCHANGED <<el, been, pend, mv, ins, del, reds, asks, made, dead>>
\* a new collection made of the objects of a checkpoint, each where it was
Restore(c, f) ==
  /\ f \in DOMAIN ckpt
  /\ LET S == {<<c, i>> : i \in DOMAIN ckpt[f]} IN
     IF c \in DOMAIN made THEN made[c] = [exp |-> {}, tag |-> f] /\ UNCHANGED <<el, been, made>>
       ELSE /\ el' = Put(el, S, LAMBDA x : ckpt[f][x[2]])
            /\ been' = Put(been, S, LAMBDA x : {ckpt[f][x[2]].loc})
            /\ made' = Put(made, {c}, LAMBDA x : [exp |-> {}, tag |-> f])
  /\ UNCHANGED <<pend, mv, ins, del, reds, asks, dead, ckpt>>
\* an existing collection goes back to a checkpoint: objects return to where
\* they were, then take on their state (r: the objects of one node)
RestoreHere(c, f, r) ==
  /\ f \in DOMAIN ckpt /\ DOMAIN ckpt[f] = {x[2] : x \in Objs(c)}
  /\ LET S == {i \in DOMAIN ckpt[f] : ckpt[f][i].loc = r} IN
       /\ At(c, r) = S
       /\ el' = Put(el, {<<c, i>> : i \in S}, LAMBDA x : ckpt[f][x[2]])
  /\ UNCHANGED <<been, pend, mv, ins, del, reds, asks, made, dead, ckpt>>
\* nothing of a round up to rd is outstanding
Over(rd) ==
  /\ \A p \in pend : p.rd > rd
  /\ \A q \in mv : q.rd > rd
  /\ \A q \in asks : q.rd > rd
  /\ \A q \in reds : q.k \div 10 > rd
  /\ \A q \in dead : q.rd <= rd => Objs(q.c) = {}
=============================================================================
