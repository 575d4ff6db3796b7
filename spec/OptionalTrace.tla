---- MODULE OptionalTrace ----
EXTENDS Optional
VARIABLE c
RecOk(r) == \A i \in DOMAIN r.ops :
   StepOk(r.kT, r.s[i].x, r.s[i].y, [o |-> r.ops[i].o, c |-> r.ops[i].c, a |-> r.ops[i].a],
          r.ops[i].k > 0, r.s[i + 1])
INSTANCE TraceCheck WITH Ok <- RecOk
====
