---- MODULE CodecTrace ----
(* runs recorded from the real streams *)
EXTENDS Codec, TLC
VARIABLE c
Case(r) == [good |-> r.good, bad |-> r.bad, chunks |-> r.chunks, fin |-> r.fin]
RecOk(r) == CASE r.kind = "dec" -> DOk(Case(r), r.plain, r)
              [] r.kind = "enc" -> EOk(Case(r), r.plain, r)
              [] r.kind = "rt" -> r.end = "end" /\ r.out = r.plain /\ r.prefix /\ r.stays    \* there and back
INSTANCE TraceCheck WITH Ok <- RecOk
====
