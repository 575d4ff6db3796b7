---- MODULE FifoMC ----
(* The FIFO refined by the layout of the real buffer (offsets r, w into a
   container of cs bytes), which only guides the exploration: every reachable
   layout is visited once, with one history leading to it, and every
   operation is tried in it.  What is expected of the implementation is the
   abstract FIFO alone. *)
EXTENDS Fifo, Emit, TLC
CONSTANTS Limits, Starts, MaxN
VARIABLES s, r, w, cs, hist, start
vars == <<s, r, w, cs, hist, start>>
Layout == <<s.limit, start, r, w, cs, s.in - s.out, Len(hist) = 0>>
Init == \E l \in Limits : \E k \in Starts :
  /\ (k > 0 => l = Huge) /\ start = k
  /\ s = New(IF l = Huge THEN 1000000 ELSE l, k) /\ r = 0 /\ w = k /\ cs = k /\ hist = <<>>
Lim == IF s.limit < MaxN THEN s.limit + 1 ELSE MaxN
Amount == (0..Lim) \cup {Huge}
Ops == {[o |-> "w", n |-> n, m |-> m] : n \in 0..Lim, m \in (0..Lim) \cup {Huge}}
       \cup {[o |-> "c", n |-> n, m |-> 0] : n \in Amount}
       \cup {[o |-> "p", n |-> n, m |-> 0] : n \in Amount \ {0}}
       \cup {[o |-> x, n |-> 0, m |-> 0] : x \in {"r", "v"}}
Useful(op) == op.o = "w" => op.m <= op.n + 1 \/ op.m = Huge
\* layout after prepare(n)
PL(n) == IF n <= s.limit - w THEN <<r, w, w + n>> ELSE <<0, Size(s), Size(s) + n>>
Next == \E op \in Ops :
  /\ Useful(op)
  /\ Len(hist) < 40
  /\ LET d == Do(s, op) IN
     /\ s' = d.s
     /\ hist' = Append(hist, op) /\ start' = start
     /\ Emit([limit |-> s.limit, start |-> start, ops |-> hist', t |-> d.t, lo |-> d.s.out, hi |-> d.s.in])
     /\ IF d.t THEN UNCHANGED <<r, w, cs>>
        ELSE CASE op.o = "w" -> LET p == PL(op.n) IN r' = p[1] /\ w' = p[2] + (d.s.in - s.in) /\ cs' = p[3]
               [] op.o = "p" -> LET p == PL(op.n) IN r' = p[1] /\ w' = p[2] /\ cs' = p[3]
               [] op.o = "c" -> (IF d.s.out = d.s.in THEN r' = 0 /\ w' = 0 ELSE r' = r + (d.s.out - s.out) /\ w' = w) /\ cs' = cs
               [] op.o = "r" -> r' = 0 /\ w' = 0 /\ cs' = 0
               [] OTHER -> UNCHANGED <<r, w, cs>>
\* bytes released or consumed are never readable again, and none is invented
Refines == /\ w - r = Size(s) /\ 0 <= r /\ r <= w /\ w <= cs
           /\ Size(s) <= s.limit /\ cs <= s.limit + s.in
Bounded == w <= 16 /\ cs <= 16
====
