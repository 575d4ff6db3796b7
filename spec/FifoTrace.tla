---- MODULE FifoTrace ----
(* histories with large amounts, recorded from the real buffer *)
EXTENDS Fifo
VARIABLE c
RECURSIVE Go(_, _, _)
Go(r, i, s) == IF i > Len(r.ops) THEN TRUE
  ELSE LET d == Do(s, r.ops[i])  o == r.obs[i] IN
       /\ o.t = d.t /\ o.size = Size(d.s) /\ o.bad = 0
       /\ (Size(d.s) > 0 => o.first = d.s.out /\ o.last = d.s.in - 1)
       /\ (r.ops[i].o = "r" => o.rel = Size(s) /\ (Size(s) > 0 => o.rfirst = s.out))
       /\ Go(r, i + 1, d.s)
RecOk(r) == Go(r, 1, New(r.limit, r.start))
INSTANCE TraceCheck WITH Ok <- RecOk
====
