---- MODULE MimeParamsMC ----
(* params_view as a map from case-insensitive names to values *)
EXTENDS Integers, Sequences, Emit, TLC
CONSTANTS Names, Values      \* spellings are <<name, spelling>>
VARIABLES m
Spell == {1, 2}
InitP == m = [n \in {} |-> 0]
None == -1
Get(mm, n) == IF n \in DOMAIN mm THEN mm[n] ELSE None
Put(mm, n, v) == (n :> v) @@ mm
Del(mm, n) == [k \in DOMAIN mm \ {n} |-> mm[k]]
Step(o, n, v) ==
  CASE o \in {"set", "idx"} -> [m |-> Put(m, n, v), r |-> v]
    [] o = "get" -> [m |-> m, r |-> Get(m, n)]
    [] o = "at" -> [m |-> m, r |-> Get(m, n)]
    [] o = "has" -> [m |-> m, r |-> IF n \in DOMAIN m THEN 1 ELSE 0]
    [] o = "era" -> [m |-> Del(m, n), r |-> Get(m, n)]
    [] o = "ref" -> [m |-> IF n \in DOMAIN m THEN m ELSE Put(m, n, 0), r |-> IF n \in DOMAIN m THEN m[n] ELSE 0]
    [] o = "clr" -> [m |-> [k \in {} |-> 0], r |-> 0]
NextP == \E o \in {"set", "idx", "get", "at", "has", "era", "ref", "clr"}, n \in Names, sp \in Spell, v \in Values :
  /\ (o \in {"set", "idx"} \/ v = 1) /\ (o = "clr" => n = 1 /\ sp = 1)
  /\ LET s == Step(o, n, v) IN
     /\ m' = s.m
     /\ Emit([o |-> o, n |-> n, sp |-> sp, v |-> v, r |-> s.r,
              before |-> [k \in Names |-> Get(m, k)], after |-> [k \in Names |-> Get(s.m, k)]])
====
