----------------------------- MODULE QueryMapMC ------------------------------
EXTENDS QueryMap, Emit, TLC
CONSTANTS Names, Values
VARIABLES s, hist
View == s
Init == s = [a |-> {}, b |-> {}] /\ hist = << >>
Rec(o, d, n, v, w) == [o |-> o, d |-> d, n |-> n, v |-> v, w |-> w]
Ops == {Rec(o, d, n, v, "") : o \in {"set", "idx", "via"}, d \in {"a", "b"}, n \in Names, v \in Values}
  \cup {Rec(o, d, n, "", "") : o \in {"idr", "get", "cgt", "at", "cat", "has", "era"}, d \in {"a", "b"}, n \in Names}
  \cup {Rec(o, d, "", "", "") : o \in {"clr", "cpy", "slf", "eq"}, d \in {"a", "b"}} \cup {Rec("swp", "a", "", "", "")}
  \cup {Rec("ini", d, n, v, w) : d \in {"a", "b"}, n \in Names, v \in Values, w \in Names}
Next == \E op \in Ops : LET r == Do(s, op) IN
  /\ s' = r.s /\ hist' = Append(hist, op)
  /\ Emit([ops |-> hist', a |-> r.s.a, b |-> r.s.b, res |-> r.res])
Maps == IsMap(s.a) /\ IsMap(s.b)
\* what was set last is what is read, other names keep theirs
Laws == \A n \in Names : \A v \in Values : \A o \in {"set", "idx"} :
  LET t == One(s.a, s.b, Rec(o, "a", n, v, ""))[1]  u == One(s.a, s.b, Rec("era", "a", n, "", ""))[1] IN
  /\ Look(t, n) = Yes(v) /\ Look(u, n) = None
  /\ \A k \in Names \ {n} : Look(t, k) = Look(s.a, k) /\ Look(u, k) = Look(s.a, k)
=============================================================================
