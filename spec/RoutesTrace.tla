---- MODULE RoutesTrace ----
(* Judges registration outcomes ("any" = not judged) and selected routes of the
   real router on recorded registration sequences. *)
EXTENDS Paths, TLC
VARIABLE c
RecOk(r) ==
  LET ps == TLCEval([i \in DOMAIN r.routes |-> ParsePath(r.routes[i].p, TRUE)])
      route == TLCEval([i \in DOMAIN ps |-> [m |-> r.routes[i].m, toks |-> ps[i].toks]])
      all == TLCEval({ j \in DOMAIN ps : ps[j].ok /\ \A k \in 1..(j - 1) : ps[k].ok => ~Equivalent(route[k], route[j]) })
      want(i) == IF ~ps[i].ok THEN "bad" ELSE IF i \in all THEN "ok" ELSE "dup"
      R == TLCEval({ [m |-> route[i].m, toks |-> route[i].toks, id |-> i] : i \in all })
  IN /\ \A i \in DOMAIN ps : r.routes[i].res \in {"any", want(i)}
     /\ \A f \in DOMAIN r.finds :
          LET q == r.finds[f]  B == Best(R, q.m, q.path) IN
            IF B = {} THEN q.id = 0 ELSE \E b \in B : q.id = b.id
INSTANCE TraceCheck WITH Ok <- RecOk
====
