----------------------------- MODULE HeaderMapMC -----------------------------
(* every operation in every state of two small maps *)
EXTENDS HeaderMap, Emit, TLC
CONSTANTS Names,    \* set of <<lower case, as written>>
          Values, Max
VARIABLES s, hist
vars == <<s, hist>>
View == s
Init == s = Empty /\ hist = << >>
Ops == {[o |-> o, d |-> d, l |-> n[1], n |-> n[2], v |-> v] : o \in {"set", "ins"}, d \in {"a", "b"}, n \in Names, v \in Values}
  \cup {[o |-> "era", d |-> d, l |-> n[1], n |-> n[2], v |-> ""] : d \in {"a", "b"}, n \in Names}
  \cup {[o |-> o, d |-> d, l |-> "", n |-> "", v |-> ""] : o \in {"clr", "cpy", "mov", "rt", "cct", "self"}, d \in {"a", "b"}}
  \cup {[o |-> "swp", d |-> "a", l |-> "", n |-> "", v |-> ""]}
Next == \E op \in Ops :
  /\ Legal(s, op)
  /\ LET r == Do(s, op) IN
     /\ Len(r.s.a) <= Max /\ Len(r.s.b) <= Max
     /\ s' = r.s /\ hist' = Append(hist, op)
     /\ Emit([ops |-> hist', a |-> r.s.a, b |-> r.s.b, oka |-> r.s.oka, okb |-> r.s.okb, res |-> r.res])
\* set leaves one entry, erase none; other names keep theirs
Laws == \A m \in {s.a, s.b} : \A n \in Names : \A v \in Values :
  LET st == One(m, [o |-> "set", d |-> "a", l |-> n[1], n |-> n[2], v |-> v])
      er == One(m, [o |-> "era", d |-> "a", l |-> n[1], n |-> n[2], v |-> v])
      is == One(m, [o |-> "ins", d |-> "a", l |-> n[1], n |-> n[2], v |-> v]) IN
  /\ Of(st, n[1]) = <<[l |-> n[1], n |-> n[2], v |-> v]>> /\ Of(er, n[1]) = << >>
  /\ Of(is, n[1]) = Append(Of(m, n[1]), [l |-> n[1], n |-> n[2], v |-> v])
  /\ \A k \in Names : k[1] # n[1] => Of(st, k[1]) = Of(m, k[1]) /\ Of(er, k[1]) = Of(m, k[1]) /\ Of(is, k[1]) = Of(m, k[1])
=============================================================================
