---- MODULE Fifo ----
(* dynamic_buffer as a bounded FIFO of bytes.
   Abstract state: the stream bytes are numbered 0, 1, 2, ...; the readable
   bytes are exactly those numbered out .. in-1.
   A write is prepare(n), filling the space, commit(m). *)
EXTENDS Integers, Sequences
CONSTANT Huge                \* stands for the largest std::size_t
Size(s) == s.in - s.out
Min2(a, b) == IF a < b THEN a ELSE b
New(limit, k) == [in |-> k, out |-> 0, limit |-> limit]
CanPrepare(s, n) == n # Huge /\ n <= s.limit - Size(s)
\* [s, thrown, released]: released is the interval of bytes handed out
Write(s, n, m) == IF CanPrepare(s, n)
  THEN [s |-> [s EXCEPT !.in = @ + (IF m = Huge THEN n ELSE Min2(m, n))], t |-> FALSE]
  ELSE [s |-> s, t |-> TRUE]
Consume(s, n) == [s EXCEPT !.out = IF n = Huge THEN s.in ELSE Min2(@ + n, s.in)]
Release(s) == [s EXCEPT !.out = s.in]
Do(s, op) == CASE op.o = "w" -> Write(s, op.n, op.m)
               [] op.o = "c" -> [s |-> Consume(s, op.n), t |-> FALSE]
               [] op.o = "r" -> [s |-> Release(s), t |-> FALSE]
               [] op.o = "v" -> [s |-> s, t |-> FALSE]      \* move to another buffer
               [] op.o = "p" -> [s |-> s, t |-> ~CanPrepare(s, op.n)]  \* prepare without commit
====
