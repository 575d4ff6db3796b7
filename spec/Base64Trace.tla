---- MODULE Base64Trace ----
EXTENDS Base64
VARIABLE c
RecOk(r) ==
  IF r.d = "enc" THEN r.out = Encode(r.a, r.i, r.pad)
  ELSE LET s == DecRun(r.a, r.i) IN
       /\ r.err = IsErr(s) /\ r.done = IsDone(s) /\ r.out = s.out
       /\ r.thrown = ~IsDone(s)
INSTANCE TraceCheck WITH Ok <- RecOk
====
