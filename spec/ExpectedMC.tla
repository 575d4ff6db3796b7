---- MODULE ExpectedMC ----
EXTENDS Expected, Emit
CONSTANT Kinds     \* set of <<kT, kE>>
VARIABLES k, x, y
vars == <<k, x, y>>
Init == /\ k \in Kinds
        /\ x \in IF k[1] = "ref" THEN {V(1), E(1)} ELSE {V(0), E(1)}
        /\ y = IF k[1] = "void" THEN V(0) ELSE V(1)
Ops == [o : Mutators \cup Observers, c : 0..3, a : 0..2]
Next == \E op \in Ops :
   /\ Available(k[1], k[2], x, y, op.o, op.c, op.a)
   /\ LET n == Apply(k[1], k[2], x, y, op) IN
        /\ x' = n.x /\ y' = n.y /\ k' = k
        /\ Emit([k |-> k, x |-> x, y |-> y, op |-> op, nx |-> n.x, ny |-> n.y, r |-> n.r])
(* ---- properties of the specification ---- *)
OneOf == x.h \in {"v", "e"} /\ y.h \in {"v", "e"}
MovedOnlyIfMovable == \A s \in {x, y} : s.n = -1 => Movable(IF s.h = "v" THEN k[1] ELSE k[2])
A(o, xx, yy) == Apply(k[1], k[2], xx, yy, [o |-> o, c |-> 0, a |-> 0])
SwapTwice == LET n == A("sw", x, y) m == A("sw", n.x, n.y) IN m.x = x /\ m.y = y
CopyEqual == k[1] # "mo" => LET n == A("ac", x, y) IN A("eq", n.x, n.y).r = Bool(TRUE)
ObserversPure == \A op \in Ops :
   op.o \in Observers /\ op.c # 2 /\ Available(k[1], k[2], x, y, op.o, op.c, op.a) =>
     LET n == Apply(k[1], k[2], x, y, op) IN n.x = x /\ n.y = y
====
