---- MODULE LoggerMC ----
(* The logger as a queue with one consumer that hands every record to the
   writers attached when its turn comes. All interleavings of calls from
   several threads, attaching writers, single writes and destruction; each is
   judged by Logger!Judge, and the observable schedule is replayed. *)
EXTENDS Logger, Emit, TLC
CONSTANTS Plans, Min, Writers, MaxAdds
VARIABLES pc, calls, writers, queue, cur, st, due, wrote, hist
vars == <<pc, calls, writers, queue, cur, st, due, wrote, hist>>
Now == 2 * Len(hist) + 1
InitL == /\ pc = [t \in DOMAIN Plans |-> 1] /\ calls = <<>> /\ queue = <<>> /\ cur = <<>> /\ st = "live"
         /\ writers = [w \in 1..Writers |-> [since |-> 0, out |-> <<>>]] /\ due = 0 /\ wrote = 0 /\ hist = <<>>
Step(x) == hist' = Append(hist, x)
Call(t) == /\ st = "live" /\ pc[t] <= Len(Plans[t])
           /\ LET lv == Plans[t][pc[t]] ok == lv >= Min /\ lv # 6 IN
              /\ calls' = Append(calls, [lv |-> lv, b |-> Now, e |-> Now + 1])
              /\ queue' = IF ok THEN Append(queue, Len(calls) + 1) ELSE queue
              /\ due' = IF ok THEN due + Len(writers) ELSE due
              /\ Step([s |-> "c", t |-> t, lv |-> lv])
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<writers, cur, st, wrote>>
(* internal: the next record gets its turn with the writers of that moment *)
Begin == /\ cur = <<>> /\ queue # <<>> /\ cur' = [w \in DOMAIN writers |-> <<w, Head(queue)>>]
         /\ queue' = Tail(queue) /\ UNCHANGED <<pc, calls, writers, st, due, wrote, hist>>
Write == /\ cur # <<>> /\ wrote < due
         /\ writers' = [writers EXCEPT ![Head(cur)[1]].out = Append(@, Head(cur)[2])]
         /\ cur' = Tail(cur) /\ wrote' = wrote + 1 /\ Step([s |-> "w", t |-> 0, lv |-> 0])
         /\ UNCHANGED <<pc, calls, queue, st, due>>
(* writes that only some interleavings owe are not part of the schedule *)
Extra == /\ cur # <<>> /\ wrote >= due
         /\ writers' = [writers EXCEPT ![Head(cur)[1]].out = Append(@, Head(cur)[2])]
         /\ cur' = Tail(cur) /\ UNCHANGED <<pc, calls, queue, st, due, wrote, hist>>
Add == /\ st = "live" /\ Len(writers) < Writers + MaxAdds
       /\ writers' = Append(writers, [since |-> Now, out |-> <<>>])
       /\ Step([s |-> "a", t |-> 0, lv |-> 0]) /\ UNCHANGED <<pc, calls, queue, cur, st, due, wrote>>
Destroy == st = "live" /\ st' = "closing" /\ Step([s |-> "d", t |-> 0, lv |-> 0])
           /\ UNCHANGED <<pc, calls, writers, queue, cur, due, wrote>>
Gone == st = "closing" /\ queue = <<>> /\ cur = <<>> /\ st' = "gone" /\ UNCHANGED <<pc, calls, writers, queue, cur, due, wrote, hist>>
NextL == \/ \E t \in DOMAIN Plans : Call(t)
         \/ Begin \/ Write \/ Extra \/ Add \/ Destroy \/ Gone
History == [calls |-> calls, writers |-> writers, min |-> Min]
Right == st = "gone" => Judge(History)
SoFar == \A w \in DOMAIN writers : InCallOrder(History, writers[w]) /\ Got(writers[w]) \subseteq Accepted(History)
EmitInv == st = "gone" => Emit(hist)
(* a logger that is being destroyed gets there *)
Ends == (st = "closing") ~> (st = "gone")
Fair == InitL /\ [][NextL]_vars /\ WF_vars(Begin) /\ WF_vars(Write) /\ WF_vars(Extra) /\ WF_vars(Gone)
====
