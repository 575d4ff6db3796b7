------------------------------ MODULE PoolJobs ------------------------------
(* How the server does it: each connection is a sequence of jobs (completions
   of reads, expiries of its timer) that workers take.  Jobs of one connection
   are never run at the same time (Strands); without that an expiry runs next
   to a completion and both change the connection.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit
CONSTANTS Conns, Workers, Strands, Timers, MaxEv
VARIABLES inbox,     \* bytes of requests the session has not read
          jobs,      \* jobs that are ready, in the order they became so
          run,       \* what each worker runs
          open, armed, hist
vars == <<inbox, jobs, run, open, armed, hist>>
W == 1..Workers
None == [c |-> 0, j |-> "none"]
RunBy(c) == {w \in W : run[w].c = c}
Held == {c \in Conns : \E w \in W : run[w].c = c /\ run[w].j = "hold"}
Queued(c) == {i \in DOMAIN jobs : jobs[i].c = c}
\* a session that waits for a request: no completion of it is ready or running
Waits(c) == {i \in Queued(c) : jobs[i].j # "timer"} = {} /\ {w \in RunBy(c) : run[w].j # "timer"} = {}

Init == inbox = [c \in Conns |-> <<>>] /\ jobs = <<>> /\ run = [w \in W |-> None] /\ open = Conns /\ armed = Conns /\ hist = <<>>
Send(c, k) == /\ c \in open /\ Len(hist) < MaxEv /\ inbox' = [inbox EXCEPT ![c] = Append(@, k)]
              /\ hist' = Append(hist, <<"send", c, k>>) /\ UNCHANGED <<jobs, run, open, armed>>
\* the reactor finds bytes for a session that waits
Wake(c) == /\ c \in open /\ inbox[c] # <<>> /\ Waits(c) /\ jobs' = Append(jobs, [c |-> c, j |-> "io"])
           /\ UNCHANGED <<inbox, run, open, armed, hist>>
Expire(c) == /\ Timers /\ c \in armed /\ armed' = armed \ {c} /\ jobs' = Append(jobs, [c |-> c, j |-> "timer"])
             /\ UNCHANGED <<inbox, run, open, hist>>
Without(i) == SubSeq(jobs, 1, i - 1) \o SubSeq(jobs, i + 1, Len(jobs))
Start(w, i) ==
  /\ run[w] = None /\ i \in DOMAIN jobs
  /\ Strands => RunBy(jobs[i].c) = {} /\ \A k \in 1..(i - 1) : jobs[k].c # jobs[i].c
  /\ jobs' = Without(i)
  /\ LET c == jobs[i].c IN
     IF jobs[i].j = "io" /\ c \in open
     THEN /\ run' = [run EXCEPT ![w] = [c |-> c, j |-> inbox[c][1]]]
          /\ inbox' = [inbox EXCEPT ![c] = Tail(@)]
     ELSE run' = [run EXCEPT ![w] = [c |-> c, j |-> IF jobs[i].j = "io" THEN "gone" ELSE "timer"]] /\ UNCHANGED inbox
  /\ UNCHANGED <<open, armed, hist>>
Finish(w) ==
  /\ run[w] # None /\ run[w].j # "hold" /\ run' = [run EXCEPT ![w] = None]
  /\ LET c == run[w].c IN
     CASE run[w].j = "ask" -> armed' = armed \cup {c} /\ UNCHANGED open
       [] run[w].j = "timer" -> open' = (IF c \notin armed /\ Waits(c) THEN open \ {c} ELSE open) /\ UNCHANGED armed
       [] OTHER -> UNCHANGED <<open, armed>>
  /\ UNCHANGED <<inbox, jobs, hist>>
Release(c) == /\ c \in Held /\ Len(hist) < MaxEv
              /\ run' = [w \in W |-> IF run[w].c = c /\ run[w].j = "hold" THEN None ELSE run[w]]
              /\ armed' = armed \cup {c} /\ hist' = Append(hist, <<"release", c, "">>) /\ UNCHANGED <<inbox, jobs, open>>
Server == \/ \E c \in Conns : Wake(c) \/ Expire(c)
          \/ \E w \in W : Finish(w) \/ \E i \in DOMAIN jobs : Start(w, i)
Env == \E c \in Conns : Release(c) \/ \E k \in {"ask", "hold"} : Send(c, k)
Next == Server \/ Env
Spec == Init /\ [][Next]_vars /\ \A w \in W : WF_vars(Finish(w)) /\ WF_vars(\E i \in DOMAIN jobs : Start(w, i)) /\ \A c \in Conns : WF_vars(Wake(c))

\* nothing of a connection happens at the same time as something else of it
Alone == \A v, w \in W : v # w /\ run[v] # None => run[v].c # run[w].c
\* one completion at a time, so that requests are taken one by one
OneIo == \A c \in Conns : Cardinality({i \in Queued(c) : jobs[i].j = "io"}) + Cardinality({w \in RunBy(c) : run[w].j # "timer"}) <= 1
\* what is sent begins, unless the connection itself or all threads are kept
Served == ~Timers => \A c \in Conns : [](inbox[c] # <<>> => <>(inbox[c] = <<>> \/ c \in Held \/ Cardinality(Held) = Workers))
\* the clients' view
P == INSTANCE Pool WITH held <- Held
Refines == P!PSpec
\* schedules: every event when nothing else is left to do
Quiet == \A c \in Conns : ~ENABLED Wake(c) /\ \A w \in W : ~ENABLED Finish(w) /\ \A i \in DOMAIN jobs : ~ENABLED Start(w, i)
SNext == Server \/ (Quiet /\ Env)
EmitInv == Len(hist) = MaxEv /\ Quiet => Emit(hist)
=============================================================================
