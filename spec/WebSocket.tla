------------------------------ MODULE WebSocket ------------------------------
(* One websocket session, from the upgrade request to the end.

   The client sends a script of frames in segments and finally ends its side.
   A frame is a record
     o    "text" | "bin" | "cont" | "ping" | "pong" | "close"
          | "bad" (violates the protocol: reserved opcode, no mask, ...)
          | "badtext" (a text message that is no UTF-8)
          | "half" (the connection ends inside the frame)
     fin  last frame of its message
     op   what the session does with a message that begins with this frame:
          "e" echo, "s" echo as the other kind, "2" as text and as binary,
          "p" ping and echo, "n" nothing, "c" close, "q" return, "t" throw
     k    the name of the frame kind
   The session handler reads message by message and reacts before it reads the
   next one.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Frames,      \* the kinds of frames
          MaxFrames,   \* length of scripts
          MaxSegs      \* deliveries

VARIABLES sc, sent, eof, hist,      \* script; frames sent; client side ended; deliveries
          ph, at, asm, fs,          \* phase; frames taken; kind and frames of the message being assembled
          out, log, self            \* frames sent by the server; the handler's log; the server ended first
vars == <<sc, sent, eof, hist, ph, at, asm, fs, out, log, self>>

\* only the last frame of a script may be one that is cut
Scripts == {s \in UNION {[1..n -> Frames] : n \in 0..MaxFrames} : \A i \in 1..Len(s) : s[i].o = "half" => i = Len(s)}

Init == /\ sc \in Scripts
        /\ sent = 0 /\ eof = FALSE /\ hist = <<>>
        /\ ph = "read" /\ at = 0 /\ asm = "none" /\ fs = <<>>
        /\ out = <<>> /\ log = <<>> /\ self = FALSE

Deliver == /\ ~eof /\ sent < Len(sc)
           /\ \E k \in 1..(Len(sc) - sent) :
                /\ (Len(hist) + 1 < MaxSegs \/ sent + k = Len(sc))
                /\ sent' = sent + k /\ hist' = Append(hist, sent + k)
           /\ UNCHANGED <<sc, eof, ph, at, asm, fs, out, log, self>>
End == /\ ~eof /\ sent = Len(sc)
       /\ eof' = TRUE
       /\ UNCHANGED <<sc, sent, hist, ph, at, asm, fs, out, log, self>>

Other(kd) == IF kd = "text" THEN "bin" ELSE "text"
Data(kd, l) == [e |-> kd, fs |-> l]
Reaction(kd, l) ==
  LET op == sc[l[1]].op IN
  CASE op = "e" -> <<Data(kd, l)>>
    [] op = "s" -> <<Data(Other(kd), l)>>
    [] op = "2" -> <<Data("text", l), Data("bin", l)>>
    [] op = "p" -> <<Data("ping", <<>>), Data(kd, l)>>
    [] op = "c" -> <<Data("close", l)>>
    [] OTHER -> <<>>
After(l) ==
  LET op == sc[l[1]].op IN
  CASE op = "c" -> "closing" [] op \in {"q", "t"} -> "done" [] OTHER -> "read"
Last(l) == LET op == sc[l[1]].op IN CASE op = "q" -> <<[w |-> "quit", fs |-> <<>>]>> [] op = "t" -> <<[w |-> "throw", fs |-> <<>>]>> [] OTHER -> <<>>

\* a message is complete
Message(kd, l) ==
  /\ log' = Append(log, [w |-> kd, fs |-> l]) \o Last(l)
  /\ out' = out \o Reaction(kd, l)
  /\ ph' = After(l) /\ self' = (After(l) = "done" /\ ~eof)
  /\ asm' = "none" /\ fs' = <<>>
\* the read of the handler fails
Error == /\ log' = Append(log, [w |-> "err", fs |-> <<>>])
         /\ out' = Append(out, Data("errclose", <<>>))
         /\ ph' = "done" /\ self' = ~eof /\ UNCHANGED <<asm, fs>>

Take ==
  /\ ph = "read" /\ at < sent
  /\ at' = at + 1
  /\ LET f == sc[at + 1] i == at + 1 IN
     CASE f.o \in {"text", "bin"} ->
            IF asm # "none" THEN Error
            ELSE IF f.fin THEN Message(f.o, <<i>>)
            ELSE asm' = f.o /\ fs' = <<i>> /\ UNCHANGED <<ph, out, log, self>>
       [] f.o = "cont" ->
            IF asm = "none" THEN Error
            ELSE IF f.fin THEN Message(asm, Append(fs, i))
            ELSE fs' = Append(fs, i) /\ UNCHANGED <<asm, ph, out, log, self>>
       [] f.o = "ping" -> out' = Append(out, Data("pong", <<i>>)) /\ UNCHANGED <<ph, asm, fs, log, self>>
       [] f.o = "pong" -> UNCHANGED <<ph, asm, fs, out, log, self>>
       [] f.o = "close" ->
            /\ out' = Append(out, Data("closed", <<i>>))
            /\ log' = Append(log, [w |-> "close", fs |-> <<>>])
            /\ ph' = "done" /\ self' = ~eof /\ UNCHANGED <<asm, fs>>
       [] f.o = "half" -> UNCHANGED <<ph, asm, fs, out, log, self>>
       [] OTHER -> Error
  /\ UNCHANGED <<sc, sent, eof, hist>>
\* the connection ended without a close frame
Lost == /\ ph = "read" /\ at = sent /\ eof
        /\ Error /\ UNCHANGED <<sc, sent, eof, hist, at>>
\* after the handler closed it reads only for the client's close frame
Closing ==
  /\ ph = "closing"
  /\ \/ /\ at < sent /\ at' = at + 1
        /\ IF sc[at + 1].o \in {"close", "bad"}
           THEN ph' = "done" /\ self' = ~eof /\ log' = Append(log, [w |-> "closed", fs |-> <<>>])
           ELSE UNCHANGED <<ph, self, log>>
     \/ /\ at = sent /\ eof /\ UNCHANGED <<at, self>>
        /\ ph' = "done" /\ log' = Append(log, [w |-> "closed", fs |-> <<>>])
  /\ UNCHANGED <<sc, sent, eof, hist, asm, fs, out>>
Next == Deliver \/ End \/ Take \/ Lost \/ Closing

(* ------------------------------------------------------------- properties *)
IsData(e) == e.e \in {"text", "bin"}
\* the frames of a message: consecutive data frames, ended by the only final one
RECURSIVE Split(_, _, _, _)
Split(i, kd, l, res) ==     \* the complete messages among the first frames taken
  IF i > at THEN res ELSE
  LET f == sc[i] IN
  CASE f.o \in {"text", "bin"} -> IF kd # "none" THEN res ELSE IF f.fin THEN Split(i + 1, "none", <<>>, Append(res, <<f.o, <<i>>>>)) ELSE Split(i + 1, f.o, <<i>>, res)
    [] f.o = "cont" -> IF kd = "none" THEN res ELSE IF f.fin THEN Split(i + 1, "none", <<>>, Append(res, <<kd, Append(l, i)>>)) ELSE Split(i + 1, kd, Append(l, i), res)
    [] f.o \in {"close", "bad"} -> res
    [] OTHER -> Split(i + 1, kd, l, res)
Msgs == SelectSeq(log, LAMBDA e : e.w \in {"text", "bin"})
\* the handler saw a prefix of the messages sent, each once, in order, whole
Delivered == LET all == Split(1, "none", <<>>, <<>>) IN
  /\ Len(Msgs) <= Len(all)
  /\ \A k \in 1..Len(Msgs) : <<Msgs[k].w, Msgs[k].fs>> = all[k]
  /\ ph = "read" => Len(Msgs) = Len(all)
\* what the client receives comes from these messages, in order
Echoed == LET d == SelectSeq(out, IsData) IN
  \A j, k \in 1..Len(d) : j < k => d[j].fs[1] <= d[k].fs[1]
\* every ping taken while the session reads is answered by one pong
Pongs == ph = "read" => Cardinality({k \in 1..Len(out) : out[k].e = "pong"}) = Cardinality({i \in 1..at : sc[i].o = "ping"})
Ends == {"close", "closed", "errclose"}
\* nothing follows a close
Final == \A k \in 1..Len(out) : out[k].e \in Ends => k = Len(out)
Done == eof /\ ph = "done"
Live == Done \/ ENABLED Next
EmitInv == Done => PrintT(ToJson([s |-> [i \in 1..Len(sc) |-> sc[i].k], h |-> hist, o |-> out, l |-> log, e |-> self]))
=============================================================================
