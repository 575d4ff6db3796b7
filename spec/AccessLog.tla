------------------------------ MODULE AccessLog ------------------------------
(* The logger middleware.  A request runs through the layers of its route,
   outermost first; a logger layer writes one record, at level info, when what
   it surrounds has answered, and none when it threw.  The record names the
   client, the method, the decoded path, the status of the answer as it passes
   this layer, and the user agent.  Apart from that a logger layer is as if it
   were not there.
   The exception handler turns an exception into a 500 answer and one record, at
   level error, of its message.
   A request is [st, gate, act, v, c]: the layers of the route ("l" logger, "e"
   exception handler, "g" gate), what gates and handler do, the text variant
   and the connection's client.  `act' is a status, or 0 for a throw a handler
   can catch, 1 for one it cannot.                                          *)
EXTENDS LogText, Emit
CONSTANTS Stacks, Gates, Acts, Variants, Clients, MaxReqs,
          MinLevel          \* the level below which the logger drops
VARIABLES log, ans, reqs
vars == <<log, ans, reqs>>

Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RECURSIVE Pct(_)
Pct(s) == IF s = <<>> THEN <<>>
          ELSE IF s[1] = 37 THEN <<Hex(s[2]) * 16 + Hex(s[3])>> \o Pct(SubSeq(s, 4, Len(s))) ELSE <<s[1]>> \o Pct(Tail(s))
Sp == <<32>>
Tag == <<91,102,105,116,111,114,105,97,46,109,105,100,100,108,101,119,97,114,101,46,108,111,103,103,101,114,93>>
Text1(r, status) == Tag \o Sp \o r.c \o Sp \o r.v.method \o Sp \o r.path \o Sp \o Dec(status) \o Sp \o r.v.ua \o Sp

ExTag == <<91,102,105,116,111,114,105,97,46,109,105,100,100,108,101,119,97,114,101,46,101,120,99,101,112,116,105,111,110,95,104,97,110,100,108,101,114,93,32,101,120,99,101,112,116,105,111,110,58,32>>
What(r, by) == IF by = "handler" THEN <<98,111,111,109>> ELSE IF r.gate = "before" THEN <<98,101,102,111,114,101>> ELSE <<97,102,116,101,114>>
Info == 2
Error == 4
Rec(l, t) == IF l >= MinLevel THEN <<[lv |-> l, t |-> t]>> ELSE <<>>

\* runs layers i.. of r: the records written, whether the handler ran, and the end
RECURSIVE Run(_, _, _)
Run(r, ls, i) ==
  IF i > Len(ls) THEN [recs |-> <<>>, ran |-> TRUE, end |-> IF r.act = 0 THEN "exc" ELSE IF r.act = 1 THEN "odd" ELSE "ok", status |-> r.act, by |-> "handler"]
  ELSE LET in == Run(r, ls, i + 1) IN
    CASE ls[i] = "l" -> IF in.end = "ok" THEN [in EXCEPT !.recs = @ \o Rec(Info, Text1(r, in.status))] ELSE in
      [] ls[i] = "e" -> IF in.end = "exc" THEN [in EXCEPT !.end = "ok", !.status = 500, !.by = "eh", !.recs = @ \o Rec(Error, ExTag \o What(r, in.by))] ELSE in
      [] ls[i] = "g" -> CASE r.gate = "pass" -> in
                          [] r.gate = "deny" -> [recs |-> <<>>, ran |-> FALSE, end |-> "ok", status |-> 403, by |-> "gate"]
                          [] r.gate = "before" -> [recs |-> <<>>, ran |-> FALSE, end |-> "exc", status |-> 0, by |-> "gate"]
                          [] r.gate = "after" -> IF in.end = "ok" THEN [in EXCEPT !.end = "exc", !.by = "gate"] ELSE in
                          [] r.gate = "change" -> IF in.end = "ok" THEN [in EXCEPT !.status = 202, !.by = "change"] ELSE in

Init == log = <<>> /\ ans = <<>> /\ reqs = <<>>
Serve(st, g, a, v, c) ==
  LET r == [st |-> st.id, gate |-> g, act |-> a, v |-> v, c |-> c, path |-> Pct(st.path \o v.path)]
      o == Run(r, st.ls, 1) IN
  /\ log' = log \o o.recs
  /\ ans' = Append(ans, [ran |-> o.ran, end |-> o.end, status |-> IF o.end = "ok" THEN o.status ELSE 0, by |-> o.by])
  /\ reqs' = Append(reqs, [st |-> st.id, gate |-> g, act |-> a, v |-> v.id, c |-> c])
Next == Len(reqs) < MaxReqs /\ \E st \in Stacks, g \in Gates, a \in Acts, v \in Variants, c \in Clients : Serve(st, g, a, v, c)

\* the answer is the one of the route without its logger layers
Without(ls) == SelectSeq(ls, LAMBDA x : x # "l")
Transparent == \A st \in Stacks, g \in Gates, a \in Acts : \A v \in {CHOOSE v \in Variants : TRUE}, c \in {CHOOSE c \in Clients : TRUE} :
  LET r == [st |-> st.id, gate |-> g, act |-> a, v |-> v, c |-> c, path |-> <<>>]
      x == Run(r, st.ls, 1) y == Run(r, Without(st.ls), 1) IN
  x.end = y.end /\ x.status = y.status /\ x.by = y.by /\ x.ran = y.ran
\* one record for each logger layer an answer passes
Counted == \A i \in DOMAIN ans : ans[i].end = "ok" /\ ans[i].by = "handler" =>
  LET st == CHOOSE st \in Stacks : st.id = reqs[i].st IN
  Len(reqs) = 1 /\ Info >= MinLevel => Len(log) = Len(SelectSeq(st.ls, LAMBDA x : x = "l"))
EmitInv == Len(reqs) = MaxReqs => Emit([q |-> reqs, a |-> ans, log |-> log])
ASSUME Transparent
=============================================================================
