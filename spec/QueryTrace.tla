----------------------------- MODULE QueryTrace ------------------------------
(* texts decoded by the real code: r.q by the URL parser (or refused), r.f as
   a form, and histories of map operations *)
EXTENDS QueryText
QM == INSTANCE QueryMap
VARIABLE c
Set(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
TextOk(r) ==
  LET good(o) == IF o.ok THEN ~MustRefuse(r.t) /\ Set(o.m) = Meaning(r.t) /\ Len(o.m) = Cardinality(Meaning(r.t)) ELSE MayRefuse(r.t)
  IN good(r.q) /\ good(r.f)
RECURSIVE Go(_, _, _)
Go(r, i, s) == IF i > Len(r.ops) THEN TRUE
  ELSE LET d == QM!Do(s, r.ops[i]) o == r.obs[i] IN
       /\ o.bad = 0 /\ o.res = d.res /\ Set(o.a) = d.s.a /\ Set(o.b) = d.s.b
       /\ Go(r, i + 1, d.s)
RecOk(r) == IF r.k = "text" THEN TextOk(r) ELSE Go(r, 1, [a |-> {}, b |-> {}])
INSTANCE TraceCheck WITH Ok <- RecOk
=============================================================================
