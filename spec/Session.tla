------------------------------- MODULE Session -------------------------------
(* Connections of the HTTP server at the level of messages.

   A client script is a sequence of requests.  Every request is a sequence of
   wire units: one for the header block, then the units of its body (for the
   chunked framing one more for the last chunk).  Clients deliver units in
   segments of any number of units and finally end their side (EOF), possibly
   in the middle of a request.  The server takes units when they are there.

   A request kind is a record
     tgt  "do" a handler | "none" no such path | "bad" an invalid target
          | "safe" a handler below exception_handler | "str" the body is an
          extracted argument | "deny" a middleware answers itself
          | "gate" below a middleware | "both" below exception_handler and it
          | "exp" a handler that returns a text or an error value
     v    10 | 11          conn  "none" | "close" | "ka"
     fr   "none" | "cl" | "ch"      n   number of body units
     rd   how the handler reads: "no" | "one" | "all"
     act  "resp" | "throw" | "othrow" (something that is no std::exception)
          | "tbefore" / "tafter" (a middleware throws instead of calling the
          handler, or after it) | "error" (an error value)
     st   status of the handler's answer        bk  kind of its body:
          "null" | "sized" | "chunked" | "broken" (a stream failing midway)
          | "throws" (a stream throwing midway)
     head TRUE for the method HEAD
     exp  TRUE for "Expect: 100-continue"
     hs   header block: "ok" | "big" (over the limit) | "syntax" (not HTTP)
     over TRUE if the body exceeds the body limit
     k    the name of the kind                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Scripts,      \* set of functions conn -> sequence of kinds
          Conns,        \* the connections
          MaxSegs,      \* deliveries per connection
          Truncate      \* TRUE: a client may end its side in the middle

VARIABLES sc, sent, eof, hist, ph, pos, cur, rdn, ans, out, log, exc
vars == <<sc, sent, eof, hist, ph, pos, cur, rdn, ans, out, log, exc>>

Body(r) == CASE r.fr = "none" -> 0 [] r.fr = "cl" -> r.n [] OTHER -> r.n + 1
Len1(r) == 1 + Body(r)
RECURSIVE SumUpTo(_, _)
SumUpTo(s, k) == IF k = 0 THEN 0 ELSE SumUpTo(s, k - 1) + Len1(s[k])
Total(s) == SumUpTo(s, Len(s))
Keep(r) == IF r.v = 11 THEN r.conn # "close" ELSE r.conn = "ka"
NoBodySt(st) == (st >= 100 /\ st < 200) \/ st = 204 \/ st = 304

(* What a complete answer looks like on the wire.
     fr   "nobody" (no body bytes follow the header block)
          | "cl" (content-length and exactly that many bytes)
          | "ch" (chunked and terminated) | "chcut" (chunked, not terminated) *)
Framing(r, st, bk) ==
  IF NoBodySt(st) \/ r.head THEN "nobody"
  ELSE CASE bk = "null" -> "cl0" [] bk = "sized" -> "cl" [] bk = "chunked" -> "ch" [] OTHER -> "chcut"
Answer(i, r, by, st, bk) ==
  [i |-> i, by |-> by, st |-> st, fr |-> Framing(r, st, bk), keep |-> Keep(r), head |-> r.head,
   x |-> bk = "throws" /\ Framing(r, st, bk) = "chcut"]
Interim(i) == [i |-> i, by |-> "interim", st |-> 100, fr |-> "nobody", keep |-> TRUE, head |-> FALSE, x |-> FALSE]

Init ==
  /\ sc \in Scripts
  /\ sent = [c \in Conns |-> 0] /\ eof = [c \in Conns |-> FALSE]
  /\ hist = <<>>
  /\ ph = [c \in Conns |-> "head"] /\ pos = [c \in Conns |-> 0] /\ cur = [c \in Conns |-> 1]
  /\ rdn = [c \in Conns |-> 0] /\ ans = [c \in Conns |-> 0]
  /\ out = [c \in Conns |-> <<>>] /\ log = [c \in Conns |-> <<>>] /\ exc = [c \in Conns |-> <<>>]

Segs(c) == Cardinality({k \in 1..Len(hist) : hist[k][1] = c /\ hist[k][2] > 0})

(* ------------------------------------------------------------ the clients *)
Deliver(c) ==
  /\ ~eof[c] /\ sent[c] < Total(sc[c])
  /\ \E k \in 1..(Total(sc[c]) - sent[c]) :
       /\ (Segs(c) + 1 < MaxSegs \/ sent[c] + k = Total(sc[c]) \/ (Truncate /\ Segs(c) < MaxSegs))
       /\ sent' = [sent EXCEPT ![c] = @ + k]
       /\ hist' = Append(hist, <<c, sent[c] + k>>)
  /\ UNCHANGED <<sc, eof, ph, pos, cur, rdn, ans, out, log, exc>>
End(c) ==
  /\ ~eof[c] /\ (sent[c] = Total(sc[c]) \/ Truncate)
  /\ eof' = [eof EXCEPT ![c] = TRUE]
  /\ hist' = Append(hist, <<c, 0>>)
  /\ UNCHANGED <<sc, sent, ph, pos, cur, rdn, ans, out, log, exc>>

(* ------------------------------------------------------------- the server *)
R(c) == sc[c][cur[c]]
Step(c, p) == ph' = [ph EXCEPT ![c] = p]
Put(c, a) == out' = [out EXCEPT ![c] = Append(@, a)]
Client == UNCHANGED <<sc, sent, eof, hist>>

\* the header block of the next request, or the end of the connection
TakeHead(c) ==
  /\ ph[c] = "head" /\ Client
  /\ IF cur[c] > Len(sc[c]) \/ sent[c] = pos[c]
     THEN /\ eof[c] /\ Step(c, "closed") /\ UNCHANGED <<pos, cur, rdn, ans, out, log, exc>>
     ELSE LET r == R(c) i == cur[c] IN
          /\ pos' = [pos EXCEPT ![c] = @ + 1]
          /\ rdn' = [rdn EXCEPT ![c] = 0]
          /\ UNCHANGED <<cur, ans, log, exc>>
          /\ \/ /\ r.hs = "big" /\ Step(c, "closed")
                /\ Put(c, [Answer(i, [r EXCEPT !.head = FALSE], "limit", 400, "sized") EXCEPT !.keep = FALSE])
             \/ \* what is not HTTP ends the connection, with or without a 400
                /\ r.hs = "syntax" /\ Step(c, "closed")
                /\ (UNCHANGED out \/ Put(c, [Answer(i, [r EXCEPT !.head = FALSE], "syntax", 400, "sized") EXCEPT !.keep = FALSE]))
             \/ \* a body announced larger than the limit may be refused at once
                /\ r.hs = "ok" /\ r.over /\ r.fr = "cl" /\ Step(c, "closed")
                /\ (UNCHANGED out \/ Put(c, [Answer(i, r, "toolarge", 413, "sized") EXCEPT !.keep = FALSE]))
             \/ /\ r.hs = "ok" /\ Step(c, "route")
                /\ IF r.exp THEN Put(c, Interim(i)) ELSE UNCHANGED out

Caught(r) == r.tgt \in {"safe", "both"}
\* how a failure of the handler ends: the error answer, or the end of the
\* connection and one call of the server's exception handler
FailWays(r) == CASE r.act = "othrow" -> IF Caught(r) THEN {"answer", "raise"} ELSE {"raise"}
                 [] Caught(r) -> {"answer"}
                 [] OTHER -> {"raise"}
Fails(r) == r.act \in {"throw", "othrow", "tbefore", "tafter"}
Outcome(r, i) == CASE r.act = "error" -> Answer(i, r, "error", 409, "sized")
                   [] r.tgt = "exp" -> Answer(i, r, "fine", 200, "sized")
                   [] OTHER -> Answer(i, r, "handler", r.st, r.bk)
Fail(c, r, i) ==
  \/ /\ "answer" \in FailWays(r)
     /\ ans' = [ans EXCEPT ![c] = Answer(i, r, "caught", 500, "null")] /\ Step(c, "respond") /\ UNCHANGED exc
  \/ /\ "raise" \in FailWays(r)
     /\ exc' = [exc EXCEPT ![c] = Append(@, i)] /\ Step(c, "closed") /\ UNCHANGED ans

Route(c) ==
  /\ ph[c] = "route" /\ Client
  /\ UNCHANGED <<pos, cur, rdn, out, log>>
  /\ LET r == R(c) i == cur[c] IN
     IF r.act = "tbefore" THEN Fail(c, r, i) ELSE
     /\ UNCHANGED exc
     /\ CASE r.tgt = "none" -> ans' = [ans EXCEPT ![c] = Answer(i, r, "notfound", 404, "sized")] /\ Step(c, "respond")
          [] r.tgt = "bad"  -> ans' = [ans EXCEPT ![c] = Answer(i, r, "badtarget", 400, "sized")] /\ Step(c, "respond")
          [] r.tgt = "deny" -> ans' = [ans EXCEPT ![c] = Answer(i, r, "deny", 403, "sized")] /\ Step(c, "respond")
          [] OTHER          -> UNCHANGED ans /\ Step(c, "read")

BodyDone(c) == rdn[c] = Body(R(c)) /\ ~R(c).over
CanTake(c) == rdn[c] < Body(R(c)) /\ sent[c] > pos[c]
\* nothing more can come: the client ended early, or the limit is hit
Broken(c) == \/ R(c).over /\ Body(R(c)) > 0 /\ (CanTake(c) \/ rdn[c] = Body(R(c)))
             \/ rdn[c] < Body(R(c)) /\ sent[c] = pos[c] /\ eof[c]
Take(c) == pos' = [pos EXCEPT ![c] = @ + 1] /\ rdn' = [rdn EXCEPT ![c] = @ + 1]

Handler(c, saw) ==   \* the handler has read what it wants and goes on
  LET r == R(c) i == cur[c] IN
  IF r.tgt = "str" /\ saw = "err"
  THEN /\ ans' = [ans EXCEPT ![c] = Answer(i, r, "nobody", 400, "sized")] /\ Step(c, "respond")
       /\ UNCHANGED <<log, exc>>
  ELSE /\ log' = [log EXCEPT ![c] = Append(@, [i |-> i, saw |-> saw])]
       /\ IF Fails(r) THEN Fail(c, r, i)
          ELSE ans' = [ans EXCEPT ![c] = Outcome(r, i)] /\ Step(c, "respond") /\ UNCHANGED exc

Read(c) ==
  /\ ph[c] = "read" /\ Client /\ UNCHANGED <<cur, out>>
  /\ LET want == IF R(c).tgt = "str" THEN "all" ELSE R(c).rd IN
     \/ /\ want = "no" /\ Handler(c, "no") /\ UNCHANGED <<pos, rdn>>
     \/ /\ want # "no" /\ Broken(c) /\ Handler(c, "err") /\ UNCHANGED <<pos, rdn>>
     \/ /\ want = "all" /\ BodyDone(c) /\ Handler(c, "all") /\ UNCHANGED <<pos, rdn>>
     \/ \* one read returns some bytes, or the end of an empty body
        /\ want = "one" /\ ~R(c).over
        /\ \/ rdn[c] > 0 /\ Handler(c, "some") /\ UNCHANGED <<pos, rdn>>
           \/ rdn[c] = 0 /\ BodyDone(c) /\ Handler(c, "end") /\ UNCHANGED <<pos, rdn>>
     \/ \* what lies within the limit may be read before the limit is hit
        /\ want = "one" /\ R(c).over /\ CanTake(c) /\ Take(c) /\ Handler(c, "some")
     \/ /\ want # "no" /\ CanTake(c) /\ ~R(c).over
        /\ Take(c) /\ UNCHANGED <<ph, ans, log, exc>>

Respond(c) ==
  /\ ph[c] = "respond" /\ Client /\ UNCHANGED <<pos, cur, rdn, ans, log>>
  /\ exc' = IF ans[c].x THEN [exc EXCEPT ![c] = Append(@, cur[c])] ELSE exc
  /\ Put(c, ans[c])
  /\ Step(c, IF ans[c].fr = "chcut" \/ ~ans[c].keep THEN "closed" ELSE "drain")

\* what the handler left of the body is skipped, or the connection ends
Drain(c) ==
  /\ ph[c] = "drain" /\ Client /\ UNCHANGED <<ans, out, log, exc>>
  /\ \/ BodyDone(c) /\ cur' = [cur EXCEPT ![c] = @ + 1] /\ Step(c, "head") /\ UNCHANGED <<pos, rdn>>
     \/ Broken(c) /\ Step(c, "closed") /\ UNCHANGED <<cur, pos, rdn>>
     \/ CanTake(c) /\ ~R(c).over /\ Take(c) /\ UNCHANGED <<cur, ph>>

Server(c) == TakeHead(c) \/ Route(c) \/ Read(c) \/ Respond(c) \/ Drain(c)
Next == \E c \in Conns : Deliver(c) \/ End(c) \/ Server(c)

(* ------------------------------------------------------------- properties *)
Finals(c) == SelectSeq(out[c], LAMBDA a : a.by # "interim")
\* one final answer per request, in order; an interim one only before its final one
Order == \A c \in Conns :
  /\ \A k \in 1..Len(Finals(c)) : Finals(c)[k].i = k
  /\ \A k \in 1..Len(out[c]) : out[c][k].by = "interim" =>
       /\ sc[c][out[c][k].i].exp
       /\ (k = Len(out[c]) \/ (out[c][k + 1].i = out[c][k].i /\ out[c][k + 1].by # "interim"))
\* a request is not answered before its header block is there, and the reading
\* position is always inside the current request
Sync == \A c \in Conns :
  /\ pos[c] <= sent[c]
  /\ cur[c] <= Len(sc[c]) + 1
  /\ ph[c] = "head" /\ cur[c] <= Len(sc[c]) => pos[c] = SumUpTo(sc[c], cur[c] - 1)
  /\ ph[c] \in {"route", "read", "respond", "drain"} =>
       pos[c] = SumUpTo(sc[c], cur[c] - 1) + 1 + rdn[c] /\ rdn[c] <= Body(R(c))
\* handlers run once per request, in order, and only for requests of the script
Runs == \A c \in Conns :
  /\ \A k \in 1..Len(log[c]) : log[c][k].i <= Len(sc[c]) /\ (k > 1 => log[c][k].i > log[c][k - 1].i)
  /\ Len(exc[c]) <= 1
\* after an answer that ends the connection there is none
Last == \A c \in Conns : \A k \in 1..Len(out[c]) :
  (~out[c][k].keep \/ out[c][k].fr = "chcut") => k = Len(out[c]) /\ ph[c] = "closed"
Done == \A c \in Conns : eof[c] /\ ph[c] = "closed"
\* the server never gets stuck before both sides are finished
Live == Done \/ ENABLED Next

(* ---- the same as a function of the script and of what was sent in total *)
RECURSIVE Outcomes(_, _, _, _, _, _)
Outcomes(s, k, left, o, l, x) ==
  IF k > Len(s) \/ left = 0 THEN {<<o, l, x>>} ELSE
  LET r == s[k]
      o1 == IF r.exp THEN Append(o, Interim(k)) ELSE o
      full == left >= Len1(r)
      whole == full /\ ~r.over
      fail(l1) == {IF w = "answer" THEN <<Append(o1, Answer(k, r, "caught", 500, "null")), l1, x, TRUE>>
                                   ELSE <<o1, l1, Append(x, k), FALSE>> : w \in FailWays(r)}
      res(saw) == IF r.tgt = "str" /\ saw = "err" THEN {<<Append(o1, Answer(k, r, "nobody", 400, "sized")), l, x, TRUE>>}
                  ELSE IF Fails(r) THEN fail(Append(l, [i |-> k, saw |-> saw]))
                  ELSE LET a == Outcome(r, k) IN {<<Append(o1, a), Append(l, [i |-> k, saw |-> saw]), IF a.x THEN Append(x, k) ELSE x, a.fr # "chcut">>}
      saws == LET w == IF r.tgt = "str" THEN "all" ELSE r.rd IN
              CASE w = "no" -> {"no"}
                [] w = "all" -> IF whole THEN {"all"} ELSE {"err"}
                [] OTHER -> IF r.over /\ Body(r) > 0 THEN {"err"} \cup (IF left > 1 THEN {"some"} ELSE {})
                            ELSE IF Body(r) = 0 THEN {"end"}
                            ELSE (IF left > 1 THEN {"some"} ELSE {}) \cup (IF whole THEN {} ELSE {"err"})
      sys == CASE r.act = "tbefore" -> fail(l)
               [] r.tgt = "none" -> {<<Append(o1, Answer(k, r, "notfound", 404, "sized")), l, x, TRUE>>}
               [] r.tgt = "bad" -> {<<Append(o1, Answer(k, r, "badtarget", 400, "sized")), l, x, TRUE>>}
               [] r.tgt = "deny" -> {<<Append(o1, Answer(k, r, "deny", 403, "sized")), l, x, TRUE>>}
               [] OTHER -> UNION {res(w) : w \in saws}
      go == UNION {IF t[4] /\ Keep(r) /\ whole THEN Outcomes(s, k + 1, left - Len1(r), t[1], t[2], t[3]) ELSE {<<t[1], t[2], t[3]>>} : t \in sys}
      nk == [r EXCEPT !.head = FALSE]
  IN CASE r.hs = "big" -> {<<Append(o, [Answer(k, nk, "limit", 400, "sized") EXCEPT !.keep = FALSE]), l, x>>}
       [] r.hs = "syntax" -> {<<o, l, x>>, <<Append(o, [Answer(k, nk, "syntax", 400, "sized") EXCEPT !.keep = FALSE]), l, x>>}
       [] OTHER -> go \cup (IF r.over /\ r.fr = "cl"
                            THEN {<<o, l, x>>, <<Append(o, [Answer(k, r, "toolarge", 413, "sized") EXCEPT !.keep = FALSE]), l, x>>} ELSE {})

\* segmentation and the interleaving of connections do not matter
Confluent == Done => \A c \in Conns : <<out[c], log[c], exc[c]>> \in Outcomes(sc[c], 1, sent[c], <<>>, <<>>, <<>>)

\* one record per history of deliveries (outcomes of one history are grouped later)
Names == [c \in Conns |-> [i \in 1..Len(sc[c]) |-> sc[c][i].k]]
EmitInv == Done => PrintT(ToJson([s |-> Names, h |-> hist, o |-> out, l |-> log, x |-> exc]))
=============================================================================
