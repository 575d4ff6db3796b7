---- MODULE FromStringMC ----
EXTENDS FromString, GenStr, Emit, TLC
CONSTANT Mode
Types == <<"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64">>
Bits == <<8, 8, 16, 16, 32, 32, 64, 64>>
Show(r) == [k |-> r.k, neg |-> r.neg, d |-> r.d]
EmitInv == CASE Mode = "int" -> Emit([s |-> p, r |-> [i \in 1..8 |-> IntOf(p, Bits[i], i % 2 = 1)]])
             [] Mode = "bool" -> Emit([s |-> p, r |-> BoolOf(p)])
             [] Mode = "float" -> Emit([s |-> p, r |-> [i \in 1..3 |-> FloatOf(p, <<"f", "d", "l">>[i])]])
(* ---- the meaning is sound ---- *)
ToI(r) == LET n == ToInt(r.d, 0) IN IF r.neg THEN -n ELSE n
\* a narrower type accepts a subset with the same values
Widening == Mode = "int" => \A i \in {1, 3, 5} : \A j \in {i + 2} :
   LET a == IntOf(p, Bits[i], TRUE) b == IntOf(p, Bits[j], TRUE) IN a.k = "v" => b = a
\* signed and unsigned agree where both accept
Signs == Mode = "int" => \A i \in {1, 3, 5, 7} :
   LET a == IntOf(p, Bits[i], TRUE) b == IntOf(p, Bits[i], FALSE) IN a.k = "v" /\ ~a.neg /\ p[1] # 45 => b = a
\* only texts of digits with one optional sign are numbers
Strict == Mode = "int" => (IntOf(p, 64, TRUE).k = "v" =>
   \A i \in DOMAIN p : IsDigit(p[i]) \/ (i = 1 /\ p[i] = 45 /\ Len(p) > 1))
====
