---- MODULE EncodeMC ----
(* Sources for the compression streams: sequences of chunk sizes, then an end
   or an error.  The encoder is a machine that may buffer as much as it likes:
   held is what it has taken and not yet handed out, in plain bytes. *)
EXTENDS Codec, Emit
CONSTANTS Sizes, MaxLen
VARIABLES c, i, held, out, st
vars == <<c, i, held, out, st>>
Seqs == UNION {[1..n -> Sizes] : n \in 0..MaxLen}
Init == /\ c \in [chunks : Seqs, fin : {"eof", "src"}] /\ i = 0 /\ held = 0 /\ out = 0 /\ st = "run"
        /\ Emit([chunks |-> c.chunks, fin |-> c.fin, st |-> EOutcome(c)])
Pull == /\ st = "run" /\ i < Len(c.chunks) /\ i' = i + 1
        /\ LET all == held + c.chunks[i + 1] IN \E h \in {0, all} : held' = h /\ out' = out + all - h
        /\ UNCHANGED <<c, st>>
Finish == /\ st = "run" /\ i = Len(c.chunks)
          /\ IF c.fin = "src" THEN st' = "src" /\ UNCHANGED <<held, out>>
             ELSE st' = "end" /\ out' = out + held /\ held' = 0
          /\ UNCHANGED <<c, i>>
Next == Pull \/ Finish
Sane == /\ out + held = Sum(SubSeq(c.chunks, 1, i))
        /\ (st = "end" => out = Sum(c.chunks))
        /\ (st # "run" => st = EOutcome(c))
====
