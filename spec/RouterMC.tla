---- MODULE RouterMC ----
(* The route table as a state machine: Register(route) adds the route unless an
   equivalent one is present.  Every reachable table up to MaxRoutes is
   explored, and for each the outcome of every request of the pool is emitted. *)
EXTENDS Paths, Emit
CONSTANTS Pool,     \* sequence of [m, p]
          Reqs,     \* sequence of [m, path]
          MaxRoutes
VARIABLE tab        \* set of pool indices registered
RT == [i \in DOMAIN Pool |-> [m |-> Pool[i].m, toks |-> ParsePath(Pool[i].p, TRUE).toks, id |-> i]]
Init == tab = {}
CanAdd(i) == \A j \in tab : ~Equivalent(RT[i], RT[j])
Next == \E i \in DOMAIN Pool \ tab : CanAdd(i) /\ Cardinality(tab) < MaxRoutes /\ tab' = tab \cup {i}
R == { RT[i] : i \in tab }
(* ---- properties ---- *)
Outcome(k) == Best(R, Reqs[k].m, Reqs[k].path)
Deterministic == \A k \in DOMAIN Reqs :
   Cardinality(Outcome(k)) = (IF Candidates(R, Reqs[k].m, Reqs[k].path) = {} THEN 0 ELSE 1)
(* registering a route can only change requests that it matches *)
Local == [][\A k \in DOMAIN Reqs :
   LET new == { RT[i] : i \in tab' \ tab } IN
     (\A r \in new : Candidates({r}, Reqs[k].m, Reqs[k].path) = {}) =>
        Best({ RT[i] : i \in tab' }, Reqs[k].m, Reqs[k].path) = Outcome(k)]_tab
EmitInv == Emit([tab |-> tab,
   dup |-> [i \in DOMAIN Pool |-> IF i \in tab THEN TRUE ELSE ~CanAdd(i)],
   out |-> [k \in DOMAIN Reqs |-> IF Outcome(k) = {} THEN 0 ELSE (CHOOSE r \in Outcome(k) : TRUE).id],
   ps |-> [k \in DOMAIN Reqs |-> IF Outcome(k) = {} THEN <<>>
            ELSE Match((CHOOSE r \in Outcome(k) : TRUE).toks, Reqs[k].path).ps]])
====
