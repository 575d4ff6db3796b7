---- MODULE OptionalMC ----
EXTENDS Optional, Emit
CONSTANT Kinds
VARIABLES k, x, y
vars == <<k, x, y>>
Init == k \in Kinds /\ x = Empty /\ y \in {Empty, Val(k, 1)}
Ops == [o : Mutators \cup Observers, c : 0..3, a : 0..2]
Next == \E op \in Ops :
   /\ Available(k, x, y, op.o, op.c, op.a)
   /\ LET n == Apply(k, x, y, op) IN
        /\ x' = n.x /\ y' = n.y /\ k' = k
        /\ Emit([k |-> k, x |-> x, y |-> y, op |-> op, nx |-> n.x, ny |-> n.y, r |-> n.r])
(* ---- properties of the specification ---- *)
A(o, xx, yy) == Apply(k, xx, yy, [o |-> o, c |-> 0, a |-> 0])
SwapTwice == LET n == A("sw", x, y) m == A("sw", n.x, n.y) IN m.x = x /\ m.y = y
CopyEqual == k # "mo" => LET n == A("ac", x, y) IN A("eq", n.x, n.y).r = Bool(TRUE)
TotalOrder == /\ Cmp(x, y) = -Cmp(y, x)
              /\ A("lt", x, y).r.n + A("eq", x, y).r.n + A("gt", x, y).r.n = 1
              /\ A("le", x, y).r.n = 1 - A("gt", x, y).r.n
              /\ A("ge", x, y).r.n = 1 - A("lt", x, y).r.n
ObserversPure == \A op \in Ops :
   op.o \in Observers /\ op.c # 2 /\ Available(k, x, y, op.o, op.c, op.a) =>
     LET n == Apply(k, x, y, op) IN n.x = x /\ n.y = y
====
