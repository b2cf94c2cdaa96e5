------------------------------ MODULE BitFields ------------------------------
(* Identifiers packed into words (epochs, pipes, groups, proxies, handlers,   *)
(* elements, priorities, envelopes): records of independent fields.  val maps *)
(* <<object, field>> to the value stored last.                                *)
VARIABLE val
BInit == val = [x \in {} |-> ""]
Store(o, k, v) == val' = [x \in DOMAIN val \cup {<<o, k>>} |-> IF x = <<o, k>> THEN v ELSE val[x]]
Reads(o, k, v) == <<o, k>> \in DOMAIN val /\ val[<<o, k>>] = v
=============================================================================
