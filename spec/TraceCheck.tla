---- MODULE TraceCheck ----
(* Generic trace validation: records observed in the implementation are read
   from an ndjson file and each is judged by the specification operator Ok.
   The records are cut into chunks so that TLC's workers share them. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Ok(_)
VARIABLE c
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == atoi(IOEnv.NREC)
CH == atoi(IOEnv.CHUNK)
NCh == (N + CH - 1) \div CH
TInit == c = 0
TNext == c = 0 /\ c' \in 1..NCh
Hi(k) == IF k * CH > N THEN N ELSE k * CH
TInv == c = 0 \/ LET tr == Trace IN
          /\ Len(tr) = N
          /\ \A i \in ((c - 1) * CH + 1)..Hi(c) :
                    Ok(tr[i]) \/ PrintT(ToJson([bad |-> i]))
====
