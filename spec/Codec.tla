---- MODULE Codec ----
(* Streaming decompression and compression.

   A decoder pulls the encoded text in chunks from a source that then ends or
   fails, and hands out plain text.  What it has to say is decided by how the
   delivered text relates to one complete encoding:

     good   length of the complete valid encoding the text starts with
     bad    TRUE if the delivered text is no encoding at all (damaged)
     chunks lengths of the chunks the source delivers
     fin    "eof" or "src": how the source ends

   An encoder pulls plain text in chunks; what it hands out has to be one
   complete encoding of all of it. *)
EXTENDS Integers, Sequences
Sum(s) == LET RECURSIVE S(_)
              S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1)
          IN S(Len(s))
(* ------------------------------------------------------------- decoder *)
DStart == [i |-> 0, fed |-> 0, st |-> "run"]
(* taking the next item of the source *)
DPull(c, s) ==
  IF s.st # "run" THEN s
  ELSE IF s.i < Len(c.chunks)
    THEN LET f == s.fed + c.chunks[s.i + 1] IN
         [i |-> s.i + 1, fed |-> f,
          st |-> IF f > c.good /\ ~c.bad THEN "err" ELSE "run"]      \* bytes after the end of the encoding
    ELSE [s EXCEPT !.st = IF c.fin = "src" THEN "src"
                          ELSE IF c.bad THEN "err"
                          ELSE IF s.fed = 0 \/ s.fed = c.good THEN "end"
                          ELSE "err"]                                \* cut short
(* a damaged text may be found out at any time, at the latest at the end *)
DTerminals(c, s) == (IF s.st = "run" THEN {} ELSE {s.st})
                    \cup (IF c.bad /\ s.fed > 0 THEN {"err"} ELSE {})
RECURSIVE DRun(_, _)
DRun(c, s) == LET t == DTerminals(c, s) IN
  t \cup (IF s.st = "run" THEN DRun(c, DPull(c, s)) ELSE {})
DOutcomes(c) == DRun(c, DStart)
(* The observation of a whole run: out bytes of plain text, all of them a
   prefix of the plain text or not, in data and empty reads, then a terminal. *)
DOk(c, plain, o) ==
  LET t == DOutcomes(c) IN
  /\ o.end \in t
  /\ (c.bad \/ (o.prefix /\ o.out <= plain))    \* what comes out of a damaged text before it is found out: anything
  /\ (o.end = "end" => (o.out = (IF Sum(c.chunks) = 0 THEN 0 ELSE plain)) /\ o.stays)
  /\ o.empties <= Len(c.chunks)               \* a read that yields nothing has taken something
  /\ o.datas <= o.out
(* ------------------------------------------------------------- encoder *)
EOutcome(c) == IF c.fin = "src" THEN "src" ELSE "end"
(* o.enc: what the reference decoder says about the concatenated output
   ("ok": one complete encoding and nothing else), o.dec: bytes it decodes *)
EOk(c, plain, o) ==
  /\ o.end = EOutcome(c)
  /\ o.prefix
  /\ (o.end = "end" => o.enc = "ok" /\ o.dec = plain /\ o.stays)
  /\ (o.end = "src" => o.enc # "ok" /\ o.enc # "trail" /\ o.enc # "bad")
  /\ o.empties <= Len(c.chunks) + 1
(* -------------------------------------------------------- the middleware *)
(* codings: the members of Content-Encoding, in the order they were applied,
   or none at all.  The handler sees the plain body and no Content-Encoding. *)
Known == {"deflate", "gzip", "brotli", "br", "identity"}
Mw(has, codings) ==
  IF ~has THEN [run |-> TRUE, status |-> 200]
  ELSE IF \A i \in 1..Len(codings) : codings[i] \in Known THEN [run |-> TRUE, status |-> 200]
  ELSE [run |-> FALSE, status |-> 400]
====
