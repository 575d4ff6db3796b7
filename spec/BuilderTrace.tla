---------------------------- MODULE BuilderTrace -----------------------------
(* random programs run in the real code: r.a the operations on a request (or
   response), r.start what they start from, r.obs what was built.  A served
   test request r.a must be what the handler saw, its response r.b what the
   client saw. *)
EXTENDS Builder
VARIABLE c
RECURSIVE Run(_, _, _)
Run(ops, i, x) == IF i > Len(ops) THEN x ELSE Run(ops, i + 1, Do1(x, ops[i]))
RECURSIVE LegalRun(_, _, _)
LegalRun(ops, i, ph) == i > Len(ops) \/ (Legal1(ph, ops[i]) /\ LegalRun(ops, i + 1, Phase(ops[i])))
QSet(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Conv(s) == [s EXCEPT !.q = QSet(s.q)]
SameHeaders(h, m) == \* values per name, in order
  /\ Len(h) = Len(m) /\ \A i \in DOMAIN m : LET vs(z) == [k \in 1..Len(Of(z, m[i].l)) |-> Of(z, m[i].l)[k].v] IN vs(h) = vs(m)
Built(r) == LET x == Run(r.a, 1, Conv(r.start)) o == r.obs IN
  /\ LegalRun(r.a, 1, "building") /\ o.st = x.st /\ o.ver = x.ver /\ SameHeaders(o.h, x.h) /\ QSet(o.q) = x.q
  /\ Len(o.q) = Cardinality(x.q) /\ o.aux = x.aux /\ o.t = x.b.t /\ (r.k # "req" => o.size = (IF x.b.k = "sized" THEN x.b.n ELSE x.b.k))
Served(r) == LET x == Run(r.a, 1, Conv(r.start)) y == Run(r.b, 1, Conv(r.start2)) o == r.obs p == r.obs2 IN
  /\ LegalRun(r.a, 1, "building") /\ LegalRun(r.b, 1, "building")
  /\ o.st = x.st /\ o.ver = x.ver /\ SameHeaders(Plain(o.h), Plain(x.h)) /\ QSet(o.q) = x.q /\ o.aux = x.aux /\ o.t = x.b.t
  /\ p.st = y.st /\ p.ver = y.ver /\ SameHeaders(Plain(p.h), Plain(y.h)) /\ p.t = y.b.t
RecOk(r) == IF r.k = "srv" THEN Served(r) ELSE Built(r)
INSTANCE TraceCheck WITH Ok <- RecOk
=============================================================================
