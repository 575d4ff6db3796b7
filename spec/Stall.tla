-------------------------------- MODULE Stall --------------------------------
(* The request timeout.  The clock of a request starts when the server begins
   to wait for it: at the connect, and after the answer to the one before.  A
   client that delivers in time is served; one that has not delivered the
   request when the clock runs out is disconnected, wherever it stalled.

   A request is a sequence of parts; head[i] is the number of the part that
   ends its header block.  "early": the answer does not wait for the body.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds,    \* set of [k, parts, head, early]
          MaxReqs, Timeout, Gaps
VARIABLES sc, now, dl, i, j, sched, answers, closed, started, slow
vars == <<sc, now, dl, i, j, sched, answers, closed, started, slow>>

Init == /\ sc \in UNION {[1..n -> Kinds] : n \in 1..MaxReqs}
        /\ now = 0 /\ dl = Timeout /\ i = 1 /\ j = 0 /\ sched = <<>>
        /\ answers = 0 /\ closed = -1 /\ started = 0 /\ slow = FALSE
Cur == sc[i]
\* at most one pause per request, so that a request is either on time or stalled
Part(g) ==
  /\ closed < 0 /\ i <= Len(sc)
  /\ (slow => g = 0)
  /\ now' = now + g /\ sched' = Append(sched, g)
  /\ IF now' < dl
     THEN /\ closed' = closed
          /\ LET last == j + 1 = Cur.parts
                 ans == IF Cur.early THEN j + 1 = Cur.head ELSE last
                 run == j + 1 = Cur.head IN
             /\ answers' = IF ans THEN answers + 1 ELSE answers
             /\ started' = IF run THEN started + 1 ELSE started
             /\ IF last THEN /\ i' = i + 1 /\ j' = 0 /\ dl' = now' + Timeout /\ slow' = FALSE
                ELSE /\ i' = i /\ j' = j + 1 /\ dl' = dl /\ slow' = (slow \/ g > 0)
     ELSE /\ closed' = dl /\ UNCHANGED <<i, j, dl, answers, started, slow>>
  /\ UNCHANGED sc
\* the client sends nothing more and does not close
Silent == /\ closed < 0 /\ i > Len(sc) /\ closed' = dl /\ now' = dl
          /\ UNCHANGED <<sc, dl, i, j, sched, answers, started, slow>>
Next == Silent \/ \E g \in Gaps : Part(g)

\* who is on time is served, who stalls is disconnected at the deadline
OnTime == closed >= 0 => closed = dl /\ now >= dl
Served == answers >= i - 1 /\ answers <= started
Ends == closed >= 0 \/ ENABLED Next
EmitInv == closed >= 0 => PrintT(ToJson([s |-> [x \in DOMAIN sc |-> sc[x].k], g |-> sched, a |-> answers, r |-> started, c |-> closed]))
=============================================================================
