------------------------------ MODULE Endpoints ------------------------------
(* The endpoints of the servers of one process.  An endpoint is bound when the
   address names something the host has and nobody holds; every other attempt
   is reported as an error and changes nothing.  A client that connects to an
   address reaches the server whose endpoint covers it, over the transport the
   endpoint was bound with; the handler sees both ends of its connection.

   An address is [id, fam, ip, port]: fam is "v4", "v6", "unix" or "bad" (a
   text that is no address, an address the host does not have, a path that
   cannot be bound); ip "any" covers every v4 address.  Two ids may name the
   same address.

   A restart takes every server down and starts as many with nothing bound: no
   connection of before survives it, a TCP address is free at once, whatever
   its connections were doing, and the socket file of a unix path stays behind:
   nothing answers there and the path cannot be bound again.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit
CONSTANTS Addrs,      \* the addresses that are bound
          Targets,    \* [id, fam, ip, port]: what clients connect to
          Servers, Kinds, MaxBinds,
          Restarts    \* how many restarts a history may have
VARIABLES bound,      \* set of [ip, port, fam, s, kind]
          stale,      \* unix paths whose socket file nobody listens on any more
          hist
vars == <<bound, stale, hist>>

Same(x, a) == x.fam = a.fam /\ x.port = a.port
Conflict(x, a) == Same(x, a) /\ (x.ip = a.ip \/ (a.fam = "v4" /\ "any" \in {x.ip, a.ip}))
Free(a) == a.fam # "bad" /\ ~(a.fam = "unix" /\ a.ip \in stale) /\ \A x \in bound : ~Conflict(x, a)
Covers(x, t) == Same(x, t) /\ (x.ip = t.ip \/ (t.fam = "v4" /\ x.ip = "any"))

(* what a client that connects to t sees: the server and the transport *)
Reach(t) == LET xs == {x \in bound : Covers(x, t)} IN
  IF xs = {} THEN [s |-> "none", kind |-> "none"] ELSE LET x == CHOOSE x \in xs : TRUE IN [s |-> x.s, kind |-> x.kind]
View == {[t |-> t.id, r |-> Reach(t)] : t \in Targets}

Bind(s, a, k) ==
  LET ok == Free(a) IN
  /\ bound' = IF ok THEN bound \union {[ip |-> a.ip, port |-> a.port, fam |-> a.fam, s |-> s, kind |-> k]} ELSE bound
  /\ UNCHANGED stale
  /\ hist' = Append(hist, [s |-> s, a |-> a.id, k |-> k, ok |-> ok, see |-> View'])
IsRestart(h) == h.a = "restart"
Restart ==
  /\ bound # {} /\ Cardinality({i \in DOMAIN hist : IsRestart(hist[i])}) < Restarts
  /\ bound' = {} /\ stale' = stale \union {x.ip : x \in {y \in bound : y.fam = "unix"}}
  /\ hist' = Append(hist, [s |-> "", a |-> "restart", k |-> "tcp", ok |-> TRUE, see |-> View'])
Init == bound = {} /\ stale = {} /\ hist = <<>>
Next == Len(hist) < MaxBinds /\ (Restart \/ \E s \in Servers, a \in Addrs, k \in Kinds : Bind(s, a, k))

(* laws *)
OneOwner == \A t \in Targets : Cardinality({x \in bound : Covers(x, t)}) <= 1
\* what was reachable stays reachable, with the same server and transport
Stays == [][(\A t \in Targets : Reach(t).s # "none" => Reach(t)' = Reach(t)) \/ Restart]_vars
\* after a restart every TCP address that was bound can be bound again
Again == \A i \in DOMAIN hist : IsRestart(hist[i]) =>
  \A a \in Addrs : a.fam \in {"v4", "v6"} => LET j == i + 1 IN (j \in DOMAIN hist /\ hist[j].a = a.id => hist[j].ok)
NoStale == \A x \in bound : ~(x.fam = "unix" /\ x.ip \in stale)
Refused == \A i \in DOMAIN hist : ~hist[i].ok /\ i > 1 => hist[i].see = hist[i - 1].see
EmitInv == Len(hist) = MaxBinds => Emit(hist)
=============================================================================
