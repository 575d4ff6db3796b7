---- MODULE StaticHistMC ----
(* A file that changes and a client that keeps copies.  A version is a size and
   a second of modification; the server's tag is a function of the version, so
   a copy is confirmed exactly when it is the present one. *)
EXTENDS StaticFile, Emit, TLC
CONSTANTS Versions, Ranges, Depth
VARIABLES cur, known, h
Vs == DOMAIN Versions
TagOf(v) == [ok |-> TRUE, strong |-> TRUE, v |-> <<v>>]
Total == Digits(Dec(Versions[cur].n))
Ask(ks, weak, r) ==          \* validators of the kept copies ks, and a range
  LET inm == IF ks = <<>> THEN <<>>
             ELSE <<FoldLeft(LAMBDA acc, k : (IF acc = <<>> THEN acc ELSE acc \o <<COMMA>>)
                       \o EtagText([ok |-> TRUE, strong |-> ~weak, v |-> <<k + 64>>]), <<>>, ks)>>
      rng == IF r = 0 THEN <<>> ELSE <<Ranges[r]>>
      as == Answers(Total, [TagOf(cur) EXCEPT !.v = <<cur + 64>>], inm, rng)
  IN [o |-> "ask", ks |-> ks, weak |-> weak, r |-> r, v |-> cur,
      as |-> { [a |-> a, cr |-> IF a.st \in {206, 416} THEN ContentRange(a, Total) ELSE <<>>] : a \in as }]
Init == cur = 1 /\ known = {} /\ h = <<>>
Change(v) == v # cur /\ cur' = v /\ known' = known /\ h' = Append(h, [o |-> "set", v |-> v])
\* any answer but a refusal shows the tag
Get(ks, weak, r) == LET e == Ask(ks, weak, r) IN
  /\ h' = Append(h, e) /\ cur' = cur
  /\ known' = IF \E x \in e.as : x.a.st \in {400, 416} THEN known ELSE known \cup {cur}
Lists == { <<>> } \cup { <<k>> : k \in known } \cup { <<k, l>> : k, l \in known }
Next == /\ Len(h) < Depth
        /\ \/ \E v \in Vs : Change(v)
           \/ \E ks \in Lists, w \in BOOLEAN, r \in 0..Len(Ranges) : (ks = <<>> => ~w) /\ Get(ks, w, r)
\* a copy is confirmed only when it is the present version
Fresh == \A i \in DOMAIN h : h[i].o = "ask" =>
  ((\E x \in h[i].as : x.a.st = 304) <=> \E k \in DOMAIN h[i].ks : h[i].ks[k] = h[i].v)
EmitInv == (Len(h) = Depth /\ h[Depth].o = "ask") => Emit([h |-> h])
====
