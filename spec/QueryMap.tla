------------------------------ MODULE QueryMap -------------------------------
(* Two query_maps.  A map is a set of <<name, value>> with one value per name;
   every operation names its target ("a" or "b") and yields an observation.  *)
EXTENDS Naturals, Sequences, FiniteSets

Has(m, n) == \E e \in m : e[1] = n
ValOf(m, n) == (CHOOSE e \in m : e[1] = n)[2]
Put(m, n, v) == {e \in m : e[1] # n} \cup {<<n, v>>}
Drop(m, n) == {e \in m : e[1] # n}
IsMap(m) == \A e \in m : \A f \in m : e[1] = f[1] => e = f
None == "none"                                   \* no value, or an exception from at
Yes(v) == "=" \o v
Look(m, n) == IF Has(m, n) THEN Yes(ValOf(m, n)) ELSE None
Dom(m) == {e[1] : e \in m}
\* the map x after op, the other map y after it, and what the caller sees
One(x, y, op) ==
  CASE op.o = "set" -> <<Put(x, op.n, op.v), y, "">>             \* set inserts or updates
    [] op.o = "idx" -> <<Put(x, op.n, op.v), y, "">>             \* m[n] = v
    [] op.o = "idr" -> LET z == IF Has(x, op.n) THEN x ELSE Put(x, op.n, "") IN <<z, y, Look(z, op.n)>>
    [] op.o = "get" -> <<x, y, Look(x, op.n)>>
    [] op.o = "cgt" -> <<x, y, Look(x, op.n)>>
    [] op.o = "at"  -> <<x, y, Look(x, op.n)>>
    [] op.o = "cat" -> <<x, y, Look(x, op.n)>>
    [] op.o = "has" -> <<x, y, IF Has(x, op.n) THEN "1" ELSE "0">>
    [] op.o = "via" -> <<IF Has(x, op.n) THEN Put(x, op.n, op.v) ELSE x, y, Look(x, op.n)>>  \* write through get
    [] op.o = "era" -> <<Drop(x, op.n), y, Look(x, op.n)>>       \* erase returns what it removed
    [] op.o = "clr" -> <<{}, y, "">>
    [] op.o = "cpy" -> <<y, y, "">>
    [] op.o = "swp" -> <<y, x, "">>
    [] op.o = "slf" -> <<x, y, "">>                              \* copies, moves and assigns itself
    [] op.o = "eq"  -> <<x, y, IF x = y THEN "1" ELSE "0">>
    [] op.o = "ini" -> <<{<<op.n, op.v>>} \cup (IF op.w # op.n THEN {<<op.w, "2">>} ELSE {}), y, "">>
\* what every observer of a map shows
Text(m) == Cardinality(m)
Do(s, op) == LET r == IF op.d = "a" THEN One(s.a, s.b, op) ELSE One(s.b, s.a, op) IN
             [s |-> IF op.d = "a" THEN [a |-> r[1], b |-> r[2]] ELSE [a |-> r[2], b |-> r[1]], res |-> r[3]]
=============================================================================
