----------------------------- MODULE Components -----------------------------
(* The pack of components a runtime is made of.  Components are registered    *)
(* with those they need to start (sdep) and those they need to run (rdep);    *)
(* the program adds some.  Construction makes exactly the components that are  *)
(* needed, each once, with everything it needs to start in place, starts them *)
(* when all are there, and polls those that ask for it; the end is the        *)
(* reverse.  Extracted components are the caller's from then on.              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sdep, rdep, polls, wanted, stage, order, inited, started, polled, sum, taken, finished, dead
convars == <<sdep, rdep, polls, wanted, stage, order, inited, started, polled, sum, taken, finished, dead>>
CoInit ==
  /\ sdep = <<>> /\ rdep = <<>> /\ polls = {} /\ wanted = {} /\ stage = "setup"
  /\ order = <<>> /\ inited = {} /\ started = 0 /\ polled = {} /\ sum = 0
  /\ taken = {} /\ finished = {} /\ dead = {}
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Made == ToSet(order)
Known == DOMAIN sdep
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {sdep[x] \cup rdep[x] : x \in S} IN IF T = S THEN S ELSE Close(T)
Needed == Close(wanted)
Owned == Made \ taken
Index(x) == CHOOSE i \in 1 .. Len(order) : order[i] = x
\* x is the last made of those still to be treated
LastOf(x, S) == x \in S /\ \A y \in S : Index(y) <= Index(x)

Register(x, s, q, poll) ==
  /\ stage = "setup" /\ x \notin Known
  /\ sdep' = [y \in Known \cup {x} |-> IF y = x THEN s ELSE sdep[y]]
  /\ rdep' = [y \in Known \cup {x} |-> IF y = x THEN q ELSE rdep[y]]
  /\ polls' = IF poll THEN polls \cup {x} ELSE polls
  /\ UNCHANGED <<wanted, stage, order, inited, started, polled, sum, taken, finished, dead>>
Add(x) ==
  /\ stage = "setup" /\ x \in Known /\ wanted' = wanted \cup {x}
  /\ UNCHANGED <<sdep, rdep, polls, stage, order, inited, started, polled, sum, taken, finished, dead>>
Go(live) ==
  /\ stage = "setup" /\ ~live /\ stage' = "making"
  /\ UNCHANGED <<sdep, rdep, polls, wanted, order, inited, started, polled, sum, taken, finished, dead>>
Construct(x, ok) ==
  /\ stage = "making" /\ ok /\ x \in Needed \ Made /\ inited = Made /\ sdep[x] \subseteq inited
  /\ order' = Append(order, x)
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, inited, started, polled, sum, taken, finished, dead>>
\* the component is reachable through its reference by then
Initialize(x, ref) ==
  /\ stage = "making" /\ ref /\ x \in Made \ inited /\ inited' = inited \cup {x}
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, order, started, polled, sum, taken, finished, dead>>
Start(x) ==
  /\ stage = "making" /\ inited = Needed /\ started < Len(order) /\ order[started + 1] = x /\ started' = started + 1
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, order, inited, polled, sum, taken, finished, dead>>
Live(live) ==
  /\ stage = "making" /\ live /\ inited = Needed /\ started = Len(order) /\ stage' = "live"
  /\ UNCHANGED <<sdep, rdep, polls, wanted, order, inited, started, polled, sum, taken, finished, dead>>
Each(v) == stage = "live" /\ ToSet(v) = Owned /\ Len(v) = Cardinality(Owned) /\ UNCHANGED convars
Poll ==
  /\ stage = "live" /\ stage' = "poll" /\ polled' = {} /\ sum' = 0
  /\ UNCHANGED <<sdep, rdep, polls, wanted, order, inited, started, taken, finished, dead>>
Polled(x, v) ==
  /\ stage = "poll" /\ x \in (Owned \cap polls) \ polled /\ polled' = polled \cup {x} /\ sum' = sum + v
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, order, inited, started, taken, finished, dead>>
PollOver(v) ==
  /\ stage = "poll" /\ stage' = "live" /\ polled = Owned \cap polls /\ v = sum
  /\ UNCHANGED <<sdep, rdep, polls, wanted, order, inited, started, polled, sum, taken, finished, dead>>
Take(x, got) ==
  /\ stage = "live" /\ got = (x \in Owned) /\ taken' = (IF got THEN taken \cup {x} ELSE taken)
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, order, inited, started, polled, sum, finished, dead>>
Stop ==
  /\ stage = "live" /\ stage' = "stop"
  /\ UNCHANGED <<sdep, rdep, polls, wanted, order, inited, started, polled, sum, taken, finished, dead>>
Finalize(x) ==
  /\ stage = "stop" /\ LastOf(x, Owned \ finished) /\ finished' = finished \cup {x}
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, order, inited, started, polled, sum, taken, dead>>
Destroy(x) ==
  /\ x \notin dead
  /\ \/ x \in taken
     \/ x \in finished /\ LastOf(x, Owned \ dead)
  /\ dead' = dead \cup {x}
  /\ UNCHANGED <<sdep, rdep, polls, wanted, stage, order, inited, started, polled, sum, taken, finished>>
Gone(live) == stage = "stop" /\ ~live /\ Owned \subseteq dead /\ UNCHANGED convars
Over == stage = "stop" /\ Made \subseteq dead /\ UNCHANGED convars
=============================================================================
