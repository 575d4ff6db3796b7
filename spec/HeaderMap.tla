------------------------------ MODULE HeaderMap ------------------------------
(* Two header maps.  A map is the sequence of its entries in insertion order;
   an entry has a name as written (n), the name without case (l) and a value.
   A name holds a sequence of values; set replaces them all, ins adds one.   *)
EXTENDS Naturals, Sequences

Empty == [a |-> << >>, b |-> << >>, oka |-> TRUE, okb |-> TRUE]
Of(m, l) == SelectSeq(m, LAMBDA e : e.l = l)
Without(m, l) == SelectSeq(m, LAMBDA e : e.l # l)
Entry(op) == [l |-> op.l, n |-> op.n, v |-> op.v]
\* the map after an operation on one map, and the number erase returns
One(m, op) ==
  CASE op.o = "set" -> Append(Without(m, op.l), Entry(op))
    [] op.o = "ins" -> Append(m, Entry(op))
    [] op.o = "era" -> Without(m, op.l)
    [] op.o = "clr" -> << >>
    [] OTHER -> m                     \* "rt" to the wire and back, "cct" copy, "self" self assignment
Res(m, op) == IF op.o = "era" THEN Len(Of(m, op.l)) ELSE 0
Pairwise == {"cpy", "mov", "swp"}     \* operations on both: d is the target
\* an operation may only be applied to maps that were not moved from
Legal(s, op) ==
  LET okd == IF op.d = "a" THEN s.oka ELSE s.okb oko == IF op.d = "a" THEN s.okb ELSE s.oka IN
  IF op.o \in {"cpy", "mov"} THEN oko ELSE IF op.o = "swp" THEN TRUE ELSE IF op.o = "clr" THEN TRUE ELSE okd
Do(s, op) ==
  LET x == IF op.d = "a" THEN s.a ELSE s.b  y == IF op.d = "a" THEN s.b ELSE s.a
      r(p, q, op1, op2) == IF op.d = "a" THEN [a |-> p, b |-> q, oka |-> op1, okb |-> op2] ELSE [a |-> q, b |-> p, oka |-> op2, okb |-> op1]
      okd == IF op.d = "a" THEN s.oka ELSE s.okb oko == IF op.d = "a" THEN s.okb ELSE s.oka IN
  CASE op.o = "cpy" -> [s |-> r(y, y, TRUE, TRUE), res |-> 0]
    [] op.o = "mov" -> [s |-> r(y, << >>, TRUE, FALSE), res |-> 0]
    [] op.o = "swp" -> [s |-> r(y, x, oko, okd), res |-> 0]
    [] op.o = "clr" -> [s |-> r(<< >>, y, TRUE, oko), res |-> 0]
    [] OTHER -> [s |-> r(One(x, op), y, okd, oko), res |-> Res(x, op)]
\* an iteration shows the entries of every name in insertion order
Shows(it, m) == /\ Len(it) = Len(m)
                /\ \A k \in 1..Len(it) : Of(it, it[k].l) = Of(m, it[k].l)
=============================================================================
