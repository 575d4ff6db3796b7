----------------------------- MODULE StreamTrace -----------------------------
(* programs over four slots and what the real streams answered *)
EXTENDS Stream
VARIABLE c
Slots == 0..3
Step(st, op, o) ==
  LET v == st.v IN
  CASE op.o = "D" -> [ok |-> TRUE, st |-> [st EXCEPT !.v[op.i] = Vec(0)]]
    [] op.o \in {"V", "S"} -> [ok |-> TRUE, st |-> [st EXCEPT !.v[op.i] = Vec(op.n)]]
    [] op.o = "P" -> [ok |-> TRUE, st |-> [st EXCEPT !.v[op.i] = Plan(op.items)]]
    [] op.o = "F" -> [ok |-> TRUE, st |-> [st EXCEPT !.v[op.i] = File(op.n, op.off, op.size)]]
    [] op.o = "W" -> [ok |-> TRUE, st |-> st]
    [] op.o = "M" -> [ok |-> TRUE, st |-> [st EXCEPT !.v[op.j] = v[op.i], !.v[op.i] = None]]
    [] op.o = "C" -> [ok |-> TRUE, st |-> [st EXCEPT !.v[op.j] = v[op.i]]]
    [] op.o = "X" -> [ok |-> TRUE, st |-> [st EXCEPT !.armed = op.n = 1]]
    [] op.o = "R" -> LET r == Read(v[op.i], o, st.armed) IN [ok |-> r.ok, st |-> [st EXCEPT !.v[op.i] = r.s]]
    [] op.o = "U" -> LET r == Drain(v[op.i], o, st.armed) IN [ok |-> r.ok, st |-> [st EXCEPT !.v[op.i] = r.s]]
    [] OTHER -> LET r == Pump(v[op.i], o, st.armed \/ op.n = 1) IN [ok |-> r.ok, st |-> [st EXCEPT !.v[op.i] = r.s]]
RECURSIVE Go(_, _, _)
Go(r, i, st) == IF i > Len(r.ops) THEN TRUE
  ELSE LET x == Step(st, r.ops[i], r.obs[i]) IN x.ok /\ Go(r, i + 1, x.st)
RecOk(r) == Go(r, 1, [v |-> [s \in Slots |-> None], armed |-> FALSE])
INSTANCE TraceCheck WITH Ok <- RecOk
=============================================================================
