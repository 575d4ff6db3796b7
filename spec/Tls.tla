--------------------------------- MODULE Tls ---------------------------------
(* The life of one TLS connection: handshake, requests, end.  A client has
   HsTimeout ticks from the connect to finish the handshake; what is not a
   handshake ends the connection.  From then on the connection is as any other:
   ReqTimeout ticks for every request, counted from the end of the handshake
   and from every answer.  A websocket session lives as long as it likes; when
   its handler ends the connection ends as after the last answer.

   What the client sends, one event at a time (g: the ticks it waits before):
     half, rest    its first flight in two pieces;   hello   at once
     fin           its second flight;  finreq   followed by a request
     req, part, rest2, last    a request; its first half; the rest; the last
                   request (Connection: close)
     ws, wsm, wsq  an upgrade; a message that is echoed; one that ends the handler
     junk          bytes that are no TLS record;  plain   an HTTP request
     bye           close_notify;  cut   closes the socket                   *)
EXTENDS Integers, Sequences, TLC, Emit
CONSTANTS HsTimeout, ReqTimeout, Gaps, MaxEvents, MaxPauses
VARIABLES ph, now, dl, evs, answers, closed, pauses
vars == <<ph, now, dl, evs, answers, closed, pauses>>
Init == ph = "tcp" /\ now = 0 /\ dl = HsTimeout /\ evs = <<>> /\ answers = 0 /\ closed = "" /\ pauses = 0

Never == 1000
\* the phase after event e, or "-" if the event does not fit
After(e) ==
  CASE ph = "tcp" /\ e = "half" -> "half"
    [] ph = "tcp" /\ e = "hello" -> "mid"
    [] ph = "half" /\ e = "rest" -> "mid"
    [] ph = "mid" /\ e \in {"fin", "finreq"} -> "up"
    [] ph = "up" /\ e = "req" -> "up"
    [] ph = "up" /\ e = "part" -> "part"
    [] ph = "part" /\ e = "rest2" -> "up"
    [] ph = "up" /\ e = "last" -> "dead"
    [] ph = "up" /\ e = "ws" -> "ws"
    [] ph = "ws" /\ e = "wsm" -> "ws"
    [] ph = "ws" /\ e = "wsq" -> "dead"
    [] ph \in {"tcp", "mid", "up", "part"} /\ e = "junk" -> "dead"
    [] ph = "tcp" /\ e = "plain" -> "dead"
    [] ph \in {"up", "part", "ws"} /\ e = "bye" -> "dead"
    [] ph # "dead" /\ e = "cut" -> "dead"
    [] OTHER -> "-"
Answers(e) == IF e \in {"finreq", "req", "rest2", "last"} THEN 1 ELSE 0
Events == {"half", "rest", "hello", "fin", "finreq", "req", "part", "rest2", "last", "ws", "wsm", "wsq", "junk", "plain", "bye", "cut"}

Do(e, g) ==
  /\ closed = "" /\ Len(evs) < MaxEvents /\ After(e) # "-" /\ (g > 0 => pauses < MaxPauses)
  /\ now' = now + g /\ evs' = Append(evs, [e |-> e, g |-> g]) /\ pauses' = pauses + (IF g > 0 THEN 1 ELSE 0)
  /\ IF now' >= dl
     THEN closed' = "late" /\ UNCHANGED <<ph, dl, answers>>
     ELSE /\ ph' = After(e) /\ answers' = answers + Answers(e)
          /\ closed' = IF ph' = "dead" THEN (IF e \in {"last", "wsq"} THEN "clean" ELSE IF e \in {"cut", "bye"} THEN "client" ELSE "refused") ELSE ""
          /\ dl' = CASE ph' = "up" -> now' + ReqTimeout [] ph' = "ws" -> Never [] OTHER -> dl
\* nothing more comes
Silent == /\ closed = "" /\ closed' = "late" /\ UNCHANGED <<ph, now, dl, evs, answers, pauses>>
Next == Silent \/ \E e \in Events, g \in Gaps : Do(e, g)
Spec == Init /\ [][Next]_vars /\ WF_vars(Silent)

NoAnswerBefore == ph \in {"tcp", "half", "mid"} => answers = 0
InTime == closed = "" => now < dl
Bounded == closed = "late" => dl <= now + ReqTimeout \/ dl <= HsTimeout \/ ph = "ws"
Session == ph = "ws" => dl = Never
Ends == <>(closed # "")
EmitInv == closed # "" => Emit([ev |-> evs, a |-> answers, how |-> closed, dl |-> dl, ph |-> ph])
=============================================================================
