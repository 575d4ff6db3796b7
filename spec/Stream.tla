------------------------------- MODULE Stream --------------------------------
(* Readable streams.  Contents are positions lo..hi-1; a stream made by a user
   (k = "plan") also prescribes its chunks: sizes, or -1 for an error.  A
   vector or file stream may cut its contents into chunks as it likes.        *)
EXTENDS Integers, Sequences
None == [k |-> "none", lo |-> 0, hi |-> 0, items |-> << >>]
Unknown == [k |-> "?", lo |-> 0, hi |-> 0, items |-> << >>]
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE (IF s[1] < 0 THEN 0 ELSE s[1]) + Sum(Tail(s))
Vec(n) == [k |-> "vec", lo |-> 0, hi |-> n, items |-> << >>]
Plan(items) == [k |-> "plan", lo |-> 0, hi |-> Sum(items), items |-> items]
\* off = -1: the whole file; size = -1: up to its end
File(n, off, size) == LET o == IF off < 0 THEN 0 ELSE Min(off, n) IN
  [k |-> "file", lo |-> o, hi |-> IF size < 0 THEN n ELSE Min(n, o + size), items |-> << >>]
FirstErr(items) == LET at == {i \in DOMAIN items : items[i] < 0} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
Adv(s, n) == [s EXCEPT !.lo = @ + n]
Skip(s, n) == [s EXCEPT !.items = SubSeq(@, n + 1, Len(@)), !.lo = @ + Sum(SubSeq(s.items, 1, n))]
Res(ok, s) == [ok |-> ok, s |-> s]
\* the bytes observed are those at a position (o.from: where they were found)
At(o, n) == \E i \in DOMAIN o.from : o.from[i] = n
\* one read; o is what was observed, armed: the file system was told to fail
Read(s, o, armed) ==
  IF s.k = "?" THEN Res(TRUE, s)
  ELSE IF s.k = "plan" THEN
    IF s.items = << >> THEN Res(o.k = "n", s)
    ELSE IF s.items[1] < 0 THEN Res(o.k = "e" /\ o.code = "plan", Skip(s, 1))
    ELSE Res(o.k = "c" /\ o.len = s.items[1] /\ (o.len > 0 => At(o, s.lo)), Skip(s, 1))
  ELSE IF o.k = "e" THEN Res(s.k = "file" /\ armed, s)
  ELSE IF s.lo = s.hi THEN Res(o.k = "n", s)
  ELSE Res(o.k = "c" /\ At(o, s.lo) /\ o.len \in 1..(s.hi - s.lo), Adv(s, o.len))
\* everything up to the end: the exact concatenation, or the first error
Drain(s, o, armed) ==
  IF s.k = "?" THEN Res(TRUE, s)
  ELSE LET e == IF s.k = "plan" THEN FirstErr(s.items) ELSE 0
           n == IF e > 0 THEN Sum(SubSeq(s.items, 1, e)) ELSE s.hi - s.lo IN
    IF e > 0 THEN Res(o.k = "e" /\ o.code = "plan", Skip(s, e))
    ELSE IF o.k = "e" THEN Res(armed /\ s.k = "file", Unknown)
    ELSE Res(o.k = "o" /\ o.len = n /\ (n > 0 => At(o, s.lo)), [s EXCEPT !.lo = s.hi, !.items = << >>])
\* as Drain, and what reached the other side up to an error is a prefix
Pump(s, o, armed) ==
  IF s.k = "?" THEN Res(TRUE, s)
  ELSE LET e == IF s.k = "plan" THEN FirstErr(s.items) ELSE 0
           n == IF e > 0 THEN Sum(SubSeq(s.items, 1, e)) ELSE s.hi - s.lo
           other == o.k = "e" /\ o.code # "plan" /\ armed       \* the other side failed
           d == IF other THEN Res(TRUE, Unknown) ELSE Drain(s, o, armed) IN
    Res(d.ok /\ (o.len > 0 => At(o, s.lo))
        /\ (IF other THEN o.len <= n /\ ~o.closed ELSE o.len = n /\ (o.k = "o") = o.closed), d.s)
=============================================================================
