-------------------------------- MODULE Pool --------------------------------
(* The memory pool: live blocks [id, at, n, left]; n bytes from address at    *)
(* belong to the block (its size with the extra bytes asked for), and left    *)
(* more are free for growing into.                                            *)
EXTENDS Integers, FiniteSets
VARIABLE blocks
PInit == blocks = {}
Blk(id) == CHOOSE b \in blocks : b.id = id
Apart(a, n, b) == a + n <= b.at \/ b.at + b.n <= a
Alloc(id, at, n) ==
  /\ \A b \in blocks : b.id # id /\ Apart(at, n, b)
  /\ blocks' = blocks \cup {[id |-> id, at |-> at, n |-> n]}
Grow(id, g) ==
  /\ \A b \in blocks : b.id # id => Apart(Blk(id).at, Blk(id).n + g, b)
  /\ blocks' = (blocks \ {Blk(id)}) \cup {[Blk(id) EXCEPT !.n = @ + g]}
Free(id) == (\E b \in blocks : b.id = id) /\ blocks' = blocks \ {Blk(id)}
=============================================================================
