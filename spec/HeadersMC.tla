---- MODULE HeadersMC ----
EXTENDS Headers, GenStr, Emit, TLC
CONSTANTS Mode, Totals
EmitInv ==
  CASE Mode = "range" -> Emit([s |-> p, r |-> [i \in DOMAIN Totals |-> RangeOf(p, Totals[i], TRUE)],
                                         l |-> [i \in DOMAIN Totals |-> RangeOf(p, Totals[i], FALSE)]])
    [] Mode = "etag" -> Emit([s |-> p, r |-> EtagOf(p)])
    [] Mode = "inm" -> Emit([s |-> p, r |-> InmOf(p), l |-> InmSkipping(p)])
(* ---- soundness of the meaning ---- *)
\* open ended and suffix intervals lie inside the representation; nothing is
\* empty; a strict reading is also a lenient one
RangeLaws == Mode = "range" => \A i \in DOMAIN Totals :
  LET r == RangeOf(p, Totals[i], TRUE) l == RangeOf(p, Totals[i], FALSE) IN
  /\ r.ok => l = r
  /\ r.ok => \A k \in DOMAIN r.items :
       /\ r.items[k].n # <<0>>
       /\ (p[Len(p)] = DASH /\ k = Len(r.items) => AddN(r.items[k].o, r.items[k].n) = Totals[i])
       /\ (Len(r.items) = 1 /\ SplitRaw(p, {EQ})[2][1] = DASH => AddN(r.items[k].o, r.items[k].n) = Totals[i])
EtagLaws == Mode = "etag" =>
  /\ EtagOf(p).ok => EtagText(EtagOf(p)) = p
  /\ StrongEq(EtagOf(p), EtagOf(p)) /\ WeakEq(EtagOf(p), EtagOf(p))
InmLaws == Mode = "inm" =>
  /\ (InmOf(p).ok /\ ~InmOf(p).any => InmSkipping(p) = InmOf(p))
  /\ (EtagOf(p).ok => InmOf(p).tags = <<EtagOf(p)>>)
====
