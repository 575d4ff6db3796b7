------------------------------ MODULE PoolTrace ------------------------------
(* runs of the real server: r.w workers, r.n connections, r.s the steps: what
   the clients did (r.s[i].e) and how many requests of each connection began
   until nothing moved any more (r.s[i].b).  Every step must be one that
   Pool.tla allows: the begins in some order, and none left that could be.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE c
Ready(s, x) == s.inbox[x] # <<>> /\ x \notin s.held
Free(r, s) == r.w - Cardinality(s.held)
Begin(s, x) == [inbox |-> [s.inbox EXCEPT ![x] = Tail(@)], held |-> IF s.inbox[x][1] = "hold" THEN s.held \cup {x} ELSE s.held]
Event(s, e) == IF e[1] = "send" THEN [s EXCEPT !.inbox[e[2]] = Append(@, e[3])] ELSE [s EXCEPT !.held = @ \ {e[2]}]
RECURSIVE Events(_, _)
Events(s, es) == IF es = <<>> THEN s ELSE Events(Event(s, es[1]), Tail(es))
\* all quiet states that can follow, with what began
RECURSIVE Settle(_, _, _)
Settle(r, s, b) ==
  LET can == {x \in 1..r.n : Ready(s, x) /\ Free(r, s) > 0} IN
  IF can = {} THEN {[s |-> s, b |-> b]}
  ELSE UNION {Settle(r, Begin(s, x), [b EXCEPT ![x] = @ + 1]) : x \in can}
RECURSIVE Go(_, _, _)
Go(r, i, s) == i > Len(r.s) \/
   \E q \in Settle(r, Events(s, r.s[i].e), [x \in 1..r.n |-> 0]) : q.b = r.s[i].b /\ Go(r, i + 1, q.s)
RecOk(r) == Go(r, 1, [inbox |-> [x \in 1..r.n |-> <<>>], held |-> {}])
INSTANCE TraceCheck WITH Ok <- RecOk
=============================================================================
