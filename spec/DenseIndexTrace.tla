--------------------------- MODULE DenseIndexTrace ---------------------------
EXTENDS TraceBase, DenseIndex
VARIABLES dm, seen, blocks, home      \* dimensions and nodes; elements so far; elements per node; node by linear position
vars == <<dm, seen, blocks, home, t, l>>
Init == TBInit /\ dm = [d |-> <<>>, n |-> 1] /\ seen = 0 /\ blocks = [x \in {} |-> 0] /\ home = [x \in {} |-> 0]
U == UNCHANGED <<dm, seen, blocks, home>>
TDims == Is("dims") /\ Ev.size = Size(Ev.d)
  /\ dm' = [d |-> Ev.d, n |-> Ev.nodes] /\ seen' = 0 /\ blocks' = [x \in 0 .. Ev.nodes - 1 |-> 0] /\ home' = [x \in {} |-> 0]
TElt == Is("elt")
  /\ LET D == dm.d IN
     /\ Ev.i = Kth(D, seen)
     /\ Ev.cm = LastFast(D, Ev.i) /\ Ev.rm = FirstFast(D, Ev.i)
     /\ Ev.back = Ev.i /\ ~Ev.dup /\ Ev.heq
     /\ Ev.rr = Ev.cm % dm.n
     /\ Ev.blk \in 0 .. dm.n - 1
     /\ (seen > 0 => Ev.lt /\ ~Ev.gt /\ ~Ev.eq)
     /\ blocks' = [blocks EXCEPT ![Ev.blk] = @ + 1]
     /\ home' = [x \in DOMAIN home \cup {Ev.cm} |-> IF x = Ev.cm THEN Ev.blk ELSE home[x]]
  /\ seen' = seen + 1 /\ UNCHANGED dm
\* every index visited once; blocks contiguous and balanced
TDone == Is("done") /\ Ev.n = seen /\ seen = Size(dm.d)
  /\ Balanced(blocks) /\ DOMAIN home = 0 .. seen - 1
  /\ (\A k \in 1 .. seen - 1 : home[k - 1] <= home[k])
  /\ U
TCmp == Is("cmp") /\ Ev.lt = Less(Ev.a, Ev.b) /\ Ev.gt = Less(Ev.b, Ev.a) /\ Ev.eq = (Ev.a = Ev.b)
  /\ Ev.sum = [j \in 1 .. Len(Ev.a) |-> Ev.a[j] + Ev.b[j]] /\ Ev.diff = [j \in 1 .. Len(Ev.a) |-> Ev.a[j] - Ev.b[j]] /\ U
TEnd == Is("end") /\ U
Next == TDims \/ TElt \/ TDone \/ TCmp \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
