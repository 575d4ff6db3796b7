---- MODULE HeaderMapTrace ----
(* long histories recorded from the real header_map *)
EXTENDS HeaderMap
VARIABLE c
RECURSIVE Go(_, _, _)
Go(r, i, s) == IF i > Len(r.ops) THEN TRUE
  ELSE LET d == Do(s, r.ops[i])  o == r.obs[i] IN
       /\ Legal(s, r.ops[i]) /\ o.bad = 0 /\ o.res = d.res
       /\ (d.s.oka => Shows(o.a, d.s.a)) /\ (d.s.okb => Shows(o.b, d.s.b))
       /\ Go(r, i + 1, d.s)
RecOk(r) == Go(r, 1, Empty)
INSTANCE TraceCheck WITH Ok <- RecOk
====
